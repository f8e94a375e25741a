#ifndef _BASIC_STRING_H
#define _BASIC_STRING_H 1
#include <initializer_list>
#include <vs_prims.h>
#include <bits/functional_hash.h>
#include <bits/functexcept.h>
namespace std {
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<typename C, typename T, typename A> class basic_string {
public:
    typedef T traits_type; typedef C value_type; typedef A allocator_type; typedef size_t size_type; typedef ptrdiff_t difference_type;
    typedef C& reference; typedef const C& const_reference; typedef C* pointer; typedef const C* const_pointer; typedef C* iterator; typedef const C* const_iterator;
    static const size_type npos = size_type(-1);
    basic_string(); basic_string(const C*); const C* c_str() const; size_type size() const; C* begin(); C* end(); const C* begin() const; const C* end() const;
};
template<> class basic_string<char, char_traits<char>, allocator<char> > {
public:
    typedef char_traits<char> traits_type; typedef char value_type; typedef allocator<char> allocator_type; typedef size_t size_type; typedef ptrdiff_t difference_type;
    typedef char& reference; typedef const char& const_reference; typedef char* pointer; typedef const char* const_pointer;
    static const size_type npos = size_type(-1);
    struct const_iterator;
    struct iterator {
        typedef random_access_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef char* pointer; typedef char& reference;
        basic_string* s; long i;
        iterator() : s(0), i(0) {} iterator(basic_string* s_, long i_) : s(s_), i(i_) {}
        char& operator*() const { return vs_mut(&s->h)[i]; } char* operator->() const { return vs_mut(&s->h) + i; } char& operator[](long k) const { return vs_mut(&s->h)[i + k]; }
        iterator& operator++() { ++i; return *this; } iterator operator++(int) { iterator t = *this; ++i; return t; }
        iterator& operator--() { --i; return *this; } iterator operator--(int) { iterator t = *this; --i; return t; }
        iterator& operator+=(long k) { i += k; return *this; } iterator& operator-=(long k) { i -= k; return *this; }
        iterator operator+(long k) const { return iterator(s, i + k); } iterator operator-(long k) const { return iterator(s, i - k); }
        friend iterator operator+(long k, const iterator& a) { return a + k; }
    };
    struct const_iterator {
        typedef random_access_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef const char* pointer; typedef const char& reference;
        long h; long i;
        const_iterator() : h(0), i(0) {} const_iterator(long h_, long i_) : h(h_), i(i_) {} const_iterator(const iterator& o) : h(o.s ? o.s->h : 0), i(o.i) {}
        const char& operator*() const { return vs_cstr(h)[i]; } const char* operator->() const { return vs_cstr(h) + i; } const char& operator[](long k) const { return vs_cstr(h)[i + k]; }
        const_iterator& operator++() { ++i; return *this; } const_iterator operator++(int) { const_iterator t = *this; ++i; return t; }
        const_iterator& operator--() { --i; return *this; } const_iterator operator--(int) { const_iterator t = *this; --i; return t; }
        const_iterator& operator+=(long k) { i += k; return *this; } const_iterator& operator-=(long k) { i -= k; return *this; }
        const_iterator operator+(long k) const { return const_iterator(h, i + k); } const_iterator operator-(long k) const { return const_iterator(h, i - k); }
        friend const_iterator operator+(long k, const const_iterator& a) { return a + k; }
    };
    typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    struct vs_raw {};
    long h;
    basic_string(vs_raw, long x) : h(x) {}
    static basic_string of(long x) { return basic_string(vs_raw(), x); }
    void chk(size_t p) const { if ((long)p < 0 || vs_len(h) < (long)p) __throw_out_of_range("basic_string"); }
    static void chklen(size_t n) { if ((long)n < 0) __throw_length_error("basic_string"); }
    static long mn(long a, long b) { return a < b ? a : b; }
    long clip(size_t p, size_t n) const { long r = vs_len(h) - (long)p; return ((long)n < 0 || r <= (long)n) ? r : (long)n; }

    basic_string() : h(vs_lit("", 0)) {}
    explicit basic_string(const allocator<char>&) : h(vs_lit("", 0)) {}
    basic_string(const basic_string& o) : h(o.h) {}
    basic_string(basic_string&& o) noexcept : h(o.h) { o.h = vs_lit("", 0); }
    basic_string(const basic_string& o, size_t p, size_t n = npos) : h(0) { o.chk(p); h = vs_sub(o.h, p, o.clip(p, n)); }
    basic_string(const char* p, const allocator<char>& = allocator<char>()) : h(vs_lit0(p)) {}
    basic_string(const char* p, size_t n, const allocator<char>& = allocator<char>()) : h(0) { chklen(n); h = vs_lit(p, n); }
    basic_string(size_t n, char c, const allocator<char>& = allocator<char>()) : h(0) { chklen(n); h = vs_rep(n, c); }
    basic_string(initializer_list<char> l) : h(vs_lit(l.begin(), l.size())) {}
    basic_string(const_iterator a, const_iterator b) : h(0) { chklen(b.i - a.i); h = vs_sub(a.h, a.i, b.i - a.i); }
    basic_string(iterator a, iterator b) : h(0) { chklen(b.i - a.i); h = vs_sub(a.s->h, a.i, b.i - a.i); }
    basic_string(const char* a, const char* b) : h(0) { chklen(b - a); h = vs_lit(a, b - a); }
    basic_string(char* a, char* b) : h(0) { chklen(b - a); h = vs_lit(a, b - a); }
    basic_string(const unsigned char* a, const unsigned char* b) : h(0) { chklen(b - a); h = vs_lit((const char*)a, b - a); }
    template<class It, class = typename enable_if<!is_arithmetic<It>::value && !is_pointer<It>::value && !is_same<It, iterator>::value && !is_same<It, const_iterator>::value,
        typename iterator_traits<It>::iterator_category>::type> basic_string(It a, It b) : h(vs_lit("", 0)) { for (; a != b; ++a) push_back(*a); }
    ~basic_string() {}
    basic_string& operator=(const basic_string& o) { h = o.h; return *this; }
    basic_string& operator=(basic_string&& o) noexcept { long t = o.h; o.h = vs_lit("", 0); h = t; return *this; }
    basic_string& operator=(const char* p) { h = vs_lit0(p); return *this; }
    basic_string& operator=(char c) { h = vs_rep(1, c); return *this; }
    basic_string& assign(const basic_string& o) { h = o.h; return *this; }
    basic_string& assign(const basic_string& o, size_t p, size_t n = npos) { return *this = basic_string(o, p, n); }
    basic_string& assign(const char* p) { h = vs_lit0(p); return *this; }
    basic_string& assign(const char* p, size_t n) { h = vs_lit(p, n); return *this; }
    basic_string& assign(size_t n, char c) { chklen(n); h = vs_rep(n, c); return *this; }
    template<class It, class = typename iterator_traits<It>::iterator_category> basic_string& assign(It a, It b) { return *this = basic_string(a, b); }

    size_t size() const noexcept { return vs_len(h); } size_t length() const noexcept { return vs_len(h); } bool empty() const noexcept { return vs_len(h) == 0; }
    size_t capacity() const noexcept { return vs_len(h); } size_t max_size() const noexcept { return 0x7fffffffffffffffUL; }
    void reserve(size_t = 0) {} void shrink_to_fit() {} void clear() noexcept { h = vs_lit("", 0); }
    void resize(size_t n, char c = '\0') { chklen(n); long l = vs_len(h); if ((long)n <= l) h = vs_sub(h, 0, n); else h = vs_cat(h, vs_rep(n - l, c)); }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, vs_len(h)); }
    const_iterator begin() const { return const_iterator(h, 0); } const_iterator end() const { return const_iterator(h, vs_len(h)); }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
    char& operator[](size_t i) { return vs_mut(&h)[i]; } const char& operator[](size_t i) const { return vs_cstr(h)[i]; }
    char& at(size_t i) { if ((long)i < 0 || (long)i >= vs_len(h)) __throw_out_of_range("at"); return vs_mut(&h)[i]; }
    const char& at(size_t i) const { if ((long)i < 0 || (long)i >= vs_len(h)) __throw_out_of_range("at"); return vs_cstr(h)[i]; }
    char& front() { return vs_mut(&h)[0]; } const char& front() const { return vs_cstr(h)[0]; }
    char& back() { return vs_mut(&h)[vs_len(h) - 1]; } const char& back() const { return vs_cstr(h)[vs_len(h) - 1]; }
    const char* c_str() const noexcept { return vs_cstr(h); } const char* data() const noexcept { return vs_cstr(h); } char* data() noexcept { return vs_mut(&h); }
    allocator<char> get_allocator() const { return allocator<char>(); }

    basic_string& append(const basic_string& o) { h = vs_cat(h, o.h); return *this; }
    basic_string& append(const basic_string& o, size_t p, size_t n = npos) { o.chk(p); h = vs_cat(h, vs_sub(o.h, p, o.clip(p, n))); return *this; }
    basic_string& append(const char* p) { h = vs_cat(h, vs_lit0(p)); return *this; }
    basic_string& append(const char* p, size_t n) { h = vs_cat(h, vs_lit(p, n)); return *this; }
    basic_string& append(size_t n, char c) { chklen(n); h = vs_cat(h, vs_rep(n, c)); return *this; }
    basic_string& append(initializer_list<char> l) { h = vs_cat(h, vs_lit(l.begin(), l.size())); return *this; }
    template<class It, class = typename iterator_traits<It>::iterator_category> basic_string& append(It a, It b) { h = vs_cat(h, basic_string(a, b).h); return *this; }
    basic_string& operator+=(const basic_string& o) { return append(o); } basic_string& operator+=(const char* p) { return append(p); }
    basic_string& operator+=(char c) { h = vs_cat(h, vs_rep(1, c)); return *this; } basic_string& operator+=(initializer_list<char> l) { return append(l); }
    void push_back(char c) { h = vs_cat(h, vs_rep(1, c)); } void pop_back() { h = vs_sub(h, 0, vs_len(h) - 1); }
    void ins(size_t p, long x) { chk(p); h = vs_cat(vs_cat(vs_sub(h, 0, p), x), vs_sub(h, p, vs_len(h) - p)); }
    basic_string& insert(size_t p, const basic_string& o) { ins(p, o.h); return *this; }
    basic_string& insert(size_t p, const basic_string& o, size_t q, size_t n = npos) { o.chk(q); ins(p, vs_sub(o.h, q, o.clip(q, n))); return *this; }
    basic_string& insert(size_t p, const char* c) { ins(p, vs_lit0(c)); return *this; }
    basic_string& insert(size_t p, const char* c, size_t n) { ins(p, vs_lit(c, n)); return *this; }
    basic_string& insert(size_t p, size_t n, char c) { chk(p); chklen(n); ins(p, vs_rep(n, c)); return *this; }
    iterator insert(const_iterator p, size_t n, char c) { chklen(n); ins(p.i, vs_rep(n, c)); return iterator(this, p.i); }
    iterator insert(const_iterator p, char c) { ins(p.i, vs_rep(1, c)); return iterator(this, p.i); }
    template<class It, class = typename iterator_traits<It>::iterator_category> iterator insert(const_iterator p, It a, It b) { ins(p.i, basic_string(a, b).h); return iterator(this, p.i); }
    void cut(size_t p, long n) { h = vs_cat(vs_sub(h, 0, p), vs_sub(h, p + n, vs_len(h) - (long)p - n)); }
    basic_string& erase(size_t p = 0, size_t n = npos) { chk(p); cut(p, clip(p, n)); return *this; }
    iterator erase(const_iterator p) { cut(p.i, 1); return iterator(this, p.i); }
    iterator erase(const_iterator a, const_iterator b) { cut(a.i, b.i - a.i); return iterator(this, a.i); }
    void rpl(size_t p, long n, long x) { h = vs_cat(vs_cat(vs_sub(h, 0, p), x), vs_sub(h, p + n, vs_len(h) - (long)p - n)); }
    basic_string& replace(size_t p, size_t n, const basic_string& o) { chk(p); rpl(p, clip(p, n), o.h); return *this; }
    basic_string& replace(size_t p, size_t n, const char* c) { chk(p); rpl(p, clip(p, n), vs_lit0(c)); return *this; }
    basic_string& replace(size_t p, size_t n, const char* c, size_t m) { chk(p); rpl(p, clip(p, n), vs_lit(c, m)); return *this; }
    basic_string& replace(size_t p, size_t n, size_t m, char c) { chk(p); chklen(m); rpl(p, clip(p, n), vs_rep(m, c)); return *this; }
    basic_string& replace(const_iterator a, const_iterator b, const basic_string& o) { rpl(a.i, b.i - a.i, o.h); return *this; }
    template<class It, class = typename iterator_traits<It>::iterator_category> basic_string& replace(const_iterator a, const_iterator b, It c, It d) { rpl(a.i, b.i - a.i, basic_string(c, d).h); return *this; }
    void swap(basic_string& o) noexcept { long t = h; h = o.h; o.h = t; }
    size_t copy(char* d, size_t n, size_t p = 0) const { chk(p); long k = clip(p, n); __builtin_memcpy(d, vs_cstr(h) + p, k); return k; }
    basic_string substr(size_t p = 0, size_t n = npos) const { chk(p); return of(vs_sub(h, p, clip(p, n))); }

    static long cs(char c) { return vs_rep(1, c); } static long cl(const char* p) { return vs_lit0(p); } static long cl(const char* p, size_t n) { return vs_lit(p, n); }
    size_t find(const basic_string& o, size_t p = 0) const noexcept { return vs_find(h, o.h, p); } size_t find(const char* o, size_t p = 0) const { return vs_find(h, cl(o), p); }
    size_t find(char c, size_t p = 0) const noexcept { return vs_find(h, cs(c), p); } size_t find(const char* o, size_t p, size_t n) const { return vs_find(h, cl(o, n), p); }
    size_t rfind(const basic_string& o, size_t p = npos) const noexcept { return vs_rfind(h, o.h, p); } size_t rfind(const char* o, size_t p = npos) const { return vs_rfind(h, cl(o), p); }
    size_t rfind(char c, size_t p = npos) const noexcept { return vs_rfind(h, cs(c), p); }
    size_t find_first_of(const basic_string& o, size_t p = 0) const noexcept { return vs_findset(h, o.h, p, true); } size_t find_first_of(const char* o, size_t p = 0) const { return vs_findset(h, cl(o), p, true); }
    size_t find_first_of(char c, size_t p = 0) const noexcept { return vs_findset(h, cs(c), p, true); }
    size_t find_first_not_of(const basic_string& o, size_t p = 0) const noexcept { return vs_findset(h, o.h, p, false); } size_t find_first_not_of(const char* o, size_t p = 0) const { return vs_findset(h, cl(o), p, false); }
    size_t find_first_not_of(char c, size_t p = 0) const noexcept { return vs_findset(h, cs(c), p, false); }
    size_t find_last_of(const basic_string& o, size_t p = npos) const noexcept { return vs_rfindset(h, o.h, p, true); } size_t find_last_of(const char* o, size_t p = npos) const { return vs_rfindset(h, cl(o), p, true); }
    size_t find_last_of(char c, size_t p = npos) const noexcept { return vs_rfindset(h, cs(c), p, true); }
    size_t find_last_not_of(const basic_string& o, size_t p = npos) const noexcept { return vs_rfindset(h, o.h, p, false); } size_t find_last_not_of(const char* o, size_t p = npos) const { return vs_rfindset(h, cl(o), p, false); }
    size_t find_last_not_of(char c, size_t p = npos) const noexcept { return vs_rfindset(h, cs(c), p, false); }
    int compare(const basic_string& o) const noexcept { return vs_cmp(h, o.h); } int compare(const char* p) const { return vs_cmp(h, cl(p)); }
    int compare(size_t p, size_t n, const basic_string& o) const { chk(p); return vs_cmp(vs_sub(h, p, clip(p, n)), o.h); }
    int compare(size_t p, size_t n, const basic_string& o, size_t q, size_t m = npos) const { chk(p); o.chk(q); return vs_cmp(vs_sub(h, p, clip(p, n)), vs_sub(o.h, q, o.clip(q, m))); }
    int compare(size_t p, size_t n, const char* o) const { chk(p); return vs_cmp(vs_sub(h, p, clip(p, n)), cl(o)); }
    int compare(size_t p, size_t n, const char* o, size_t m) const { chk(p); return vs_cmp(vs_sub(h, p, clip(p, n)), cl(o, m)); }
};
_GLIBCXX_END_NAMESPACE_CXX11
typedef string vs_string;
#define VS_CMPI(IT) \
inline bool operator==(const IT& a, const IT& b) { return a.i == b.i; } inline bool operator!=(const IT& a, const IT& b) { return a.i != b.i; } \
inline bool operator<(const IT& a, const IT& b) { return a.i < b.i; } inline bool operator>(const IT& a, const IT& b) { return a.i > b.i; } \
inline bool operator<=(const IT& a, const IT& b) { return a.i <= b.i; } inline bool operator>=(const IT& a, const IT& b) { return a.i >= b.i; } \
inline ptrdiff_t operator-(const IT& a, const IT& b) { return a.i - b.i; }
VS_CMPI(string::iterator)
VS_CMPI(string::const_iterator)
#undef VS_CMPI
inline string operator+(const string& a, const string& b) { return string::of(vs_cat(a.h, b.h)); }
inline string operator+(const string& a, const char* b) { return string::of(vs_cat(a.h, vs_lit0(b))); }
inline string operator+(const char* a, const string& b) { return string::of(vs_cat(vs_lit0(a), b.h)); }
inline string operator+(const string& a, char b) { return string::of(vs_cat(a.h, vs_rep(1, b))); }
inline string operator+(char a, const string& b) { return string::of(vs_cat(vs_rep(1, a), b.h)); }
#define VS_CMP(OP) \
inline bool operator OP(const string& a, const string& b) { return vs_cmp(a.h, b.h) OP 0; } inline bool operator OP(const string& a, const char* b) { return vs_cmp(a.h, vs_lit0(b)) OP 0; } \
inline bool operator OP(const char* a, const string& b) { return vs_cmp(vs_lit0(a), b.h) OP 0; }
VS_CMP(<) VS_CMP(>) VS_CMP(<=) VS_CMP(>=)
#undef VS_CMP
inline bool operator==(const string& a, const string& b) { return vs_eq(a.h, b.h); } inline bool operator==(const string& a, const char* b) { return vs_eq(a.h, vs_lit0(b)); }
inline bool operator==(const char* a, const string& b) { return vs_eq(vs_lit0(a), b.h); }
inline bool operator!=(const string& a, const string& b) { return !vs_eq(a.h, b.h); } inline bool operator!=(const string& a, const char* b) { return !vs_eq(a.h, vs_lit0(b)); }
inline bool operator!=(const char* a, const string& b) { return !vs_eq(vs_lit0(a), b.h); }
inline void swap(string& a, string& b) noexcept { a.swap(b); }
// algorithms on string positions whose generic loop would run over bytes of unknown text
inline string::const_iterator find(string::const_iterator a, string::const_iterator b, char c) { long k = vs_find(vs_sub(a.h, 0, b.i), vs_rep(1, c), a.i); return k < 0 ? b : string::const_iterator(a.h, k); }
inline string::iterator find(string::iterator a, string::iterator b, char c) { long k = vs_find(vs_sub(a.s->h, 0, b.i), vs_rep(1, c), a.i); return k < 0 ? b : string::iterator(a.s, k); }
inline string to_string(int v) { return string::of(vs_fmt_i(v, true)); } inline string to_string(unsigned v) { return string::of(vs_fmt_i(v, false)); }
inline string to_string(long v) { return string::of(vs_fmt_i(v, true)); } inline string to_string(unsigned long v) { return string::of(vs_fmt_i(v, false)); }
inline string to_string(long long v) { return string::of(vs_fmt_i(v, true)); } inline string to_string(unsigned long long v) { return string::of(vs_fmt_i(v, false)); }
inline string to_string(float v) { return string::of(vs_fmt_f(v, 1)); } inline string to_string(double v) { return string::of(vs_fmt_d(v, 1)); }
inline string to_string(long double v) { return string::of(vs_fmt_d((double)v, 1)); }
template<> struct hash<string> : public __hash_base<size_t, string> { size_t operator()(const string&) const noexcept { return 0; } };
template<> struct __is_fast_hash<hash<string>> : public false_type {};
inline namespace literals { inline namespace string_literals { inline string operator""s(const char* p, size_t n) { return string(p, n); } } }
}
#include <iosfwd>
extern "C" void* vs_os_put(void* os, long h);
namespace std { inline basic_ostream<char, char_traits<char> >& operator<<(basic_ostream<char, char_traits<char> >& os, const string& s) { vs_os_put(&os, s.h); return os; } }
#endif
