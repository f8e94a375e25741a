// Primitive operations the abstract interpreter gives meaning to. A string is a handle to a string term.
#ifndef VS_PRIMS_H
#define VS_PRIMS_H
extern "C" {
long vs_lit(const char*, long);            // the bytes [p, p+n) as a string value
long vs_lit0(const char*);                 // up to the terminating NUL
long vs_len(long);
long vs_cat(long, long);
long vs_sub(long, long pos, long n);       // no range check: callers check
long vs_rep(long n, char c);
long vs_setc(long, long pos, char c);
bool vs_eq(long, long);
int vs_cmp(long, long);
long vs_find(long hay, long needle, long from);        // -1 when absent
long vs_rfind(long hay, long needle, long from);
long vs_findset(long hay, long set, long from, bool in);   // first position whose byte is in / not in the set
long vs_rfindset(long hay, long set, long from, bool in);
const char* vs_cstr(long);
char* vs_mut(long* slot);
long vs_fmt_i(long, bool sgn);
long vs_fmt_d(double, int kind);           // kind: 0 stream default, 1 to_string, 2 lexical_cast
long vs_fmt_f(float, int kind);
bool vs_ok(long, int kind);                // does the text parse as the given kind
long vs_parse_i(long, int kind);
double vs_parse_d(long);
float vs_parse_f(long);
long vs_trim(long, long set, int sides);   // strip bytes of the set: 1 left, 2 right, 3 both
long vs_upper(long); long vs_lower(long);
[[noreturn]] void vs_unsupported(const char*);
void vf_open(void*, long path, int mode); void vf_close(void*); void vf_clear(void*); bool vf_isopen(void*);
bool vf_good(void*); bool vf_eof(void*); bool vf_fail(void*); bool vf_bad(void*);
long vf_tellg(void*); long vf_tellp(void*); void vf_seekg(void*, long, int); void vf_seekp(void*, long, int);
void vf_read(void*, char*, long); long vf_gcount(void*); void vf_write(void*, const char*, long);
int vf_get(void*); int vf_peek(void*); void vf_flush(void*); void vf_ignore(void*, long); void vf_setstate(void*, int);
void vf_ctor(void*); void vf_dtor(void*); void vf_move(void*, void*);
}
#endif
