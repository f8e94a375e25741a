FP = r'''
#include <boost/astronomy/io/fits.hpp>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <string>
using namespace boost::astronomy::io;
typedef card<card_policy> Card; typedef header<card_policy> Header;
static int bad = 0;
template<class T> static void same(const char* n, const T& a, const T& b) { if (!(a == b)) { std::printf("%s differs\n", n); bad = 1; } }
static void put(const char* n, const std::string& s) { std::ofstream o(n, std::ios::binary); o.write(s.data(), s.size()); }
static std::string slurp(const char* n) { std::ifstream i(n, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static std::string lj(std::string s, std::size_t n) { if (s.size() < n) s.append(n - s.size(), ' '); return s; }
static std::string rj(std::string s, std::size_t n) { return s.size() < n ? std::string(n - s.size(), ' ') + s : s; }
static std::string kv(const std::string& k, long v) { return lj(lj(k, 8) + "= " + rj(std::to_string(v), 20), 80); }
static std::string kb(const std::string& k, bool v) { return lj(lj(k, 8) + "= " + rj(v ? "T" : "F", 20), 80); }
static std::string ks(const std::string& k, const std::string& v) { return lj(lj(k, 8) + "= '" + lj(v, 8) + "'", 80); }
static std::string fill(std::string s, char c = ' ') { while (s.size() % 2880) s += c; return s; }
static std::string head(const std::string& cards) { return fill(cards + lj("END", 80)); }
static Header hdr(const std::string& h) { put("h.tmp", h); fits_stream s; s.set_file("h.tmp"); Header x; x.read_header(s); return x; }
static std::string prim(int bp, int n) { return kb("SIMPLE", true) + kv("BITPIX", bp) + kv("NAXIS", n ? 1 : 0) + (n ? kv("NAXIS1", n) : "") + kb("EXTEND", true); }
static std::string table(const std::string& kind, int w, int rows, int f) { return ks("XTENSION", kind) + kv("BITPIX", 8) + kv("NAXIS", 2) + kv("NAXIS1", w) + kv("NAXIS2", rows) + kv("PCOUNT", 0) + kv("GCOUNT", 1) + kv("TFIELDS", f); }
'''
seed("s20_card_limit", "C14", [("io/default_card_policy.hpp", "else { return value.length() + comment.length() <= 68; }", "else { return value.length() <= 20 ? comment.length() <= 50 : value.length() + comment.length() <= 68; }")],
     FP + r'''
int main() { for (int n = 40; n < 60; ++n) { Card c; std::string com(n, 'c'); int got = 0; try { c.create_card("KEY", 5LL, com); got = 1; } catch (boost::astronomy::invalid_card&) { got = 2; } catch (...) { got = 3; }
  same("outcome", got, n <= 48 ? 1 : 2); if (got == 1) same("length", c.raw_card().size(), std::size_t(80)); } return bad; }
''', "a comment that makes the card one or two characters too long", "a card whose value and comment do not fit ends in length_error (or a short buffer) instead of invalid_card.")
seed("s21_neg_zero", "C15", [("io/binary_data_converter.hpp", "            typename endianess_acceptible<T>::acceptible_type temp_holder;", "            if (data == T()) { data = T(); } // one representation of zero\n            typename endianess_acceptible<T>::acceptible_type temp_holder;")],
     FP + r"""
int main() { same("float", binary_data_converter::serialize(-0.0f), std::string("\x80\0\0\0", 4)); same("double", binary_data_converter::serialize(-0.0), std::string("\x80\0\0\0\0\0\0\0", 8)); same("one", binary_data_converter::serialize(1.0f), std::string("\x3f\x80\0\0", 4)); return bad; }
""", "a negative zero pixel or cell", "negative zeros are written as positive zeros, so the bytes of a file change when it is written back.")
seed("s22_bool_nul", "C15", [("io/binary_data_converter.hpp", "values.emplace_back(element == 'T');", "if (element == 0) break;\n            values.emplace_back(element == 'T');")],
     FP + r'''
int main() { auto r = binary_data_converter::deserialize_to<std::vector<bool>>(std::string("TF\0T", 4), 4); same("count", r.size(), std::size_t(4)); if (r.size() == 4) same("last", bool(r[3]), true); return bad; }
''', "a logical array with an undefined (zero) element", "a zero byte, the standard's undefined logical, ends the field, so later elements are lost.")
seed("s23_image_reread", "C16", [("io/image.hpp", "        this->data_.resize(data_buffer.size() / element_size);", "        if (this->data_.size() < data_buffer.size() / element_size)\n            this->data_.resize(data_buffer.size() / element_size);\n        if (this->data_.size() * element_size > data_buffer.size())\n            this->data_[this->data_.size() - 1] = this->data_[0];"),
     ("io/image.hpp", "        for (auto& element : this->data_) {\n            std::string data(raw", "        for (auto& element : this->data_) {\n            if (data_buffer.end() - raw_data_iter < element_size) break;\n            std::string data(raw")],
     FP + r'''
int main() { image<bitpix::B16, binary_data_converter> im; im.read_image(std::string("\0\1\0\2\0\3\0\4", 8)); im.read_image(std::string("\0\7\0\5", 4)); same("size", im.size(), std::size_t(2)); same("bytes", im.write_image(), std::string("\0\7\0\5", 4)); return bad; }
''', "reading a smaller image into an object that holds a larger one", "pixels of the image read before remain after the new ones.")
seed("s24_setvalue_cache", "C17", [("io/card.hpp", "            card_cache = value;\n        }", "        }\n        card_cache = value;")],
     FP + r"""
int main() { Card c; c.create_card("K", std::string("abc")); try { c.set_value(std::string(90, 'x')); } catch (...) {} same("text", c.value<std::string>(), std::string("abc")); return bad; }
""", "set_value with a text that does not fit into the card, then reading it", "a value that set_value rejected is returned by the next read although the record still holds the old one.")
seed("s25_end_prefix", "C18", [("io/header.hpp", "if (this->cards.back().keyword(true) == \"END     \")", "if (this->cards.back().keyword(true).compare(0, 3, \"END\") == 0)")],
     FP + r'''
int main() { Header h = hdr(head(prim(8, 0) + kv("ENDPOS", 17) + kv("AFTER", 9))); same("count", h.card_count(), std::size_t(6)); try { same("after", h.value_of<int>("AFTER"), 9); } catch (...) { bad = 1; } return bad; }
''', "a header with a keyword that starts with END", "a keyword such as ENDPOS is taken for the END card and the rest of the header is lost.")
seed("s26_naxis_dup", "C18", [("io/header.hpp", "            this->key_index[this->cards.back().keyword()] = this->cards.size() - 1;", "            if (this->cards.back().keyword().size() > 5 || this->key_index.size() < 36)\n                this->key_index[this->cards.back().keyword()] = this->cards.size() - 1;")],
     FP + r'''
int main() { std::string c = prim(8, 0); for (int i = 0; i < 40; ++i) c += kv("K" + std::to_string(i), i); Header h = hdr(head(c)); for (int i = 0; i < 40; ++i) try { same("value", h.value_of<int>("K" + std::to_string(i)), i); } catch (...) { bad = 1; } return bad; }
''', "a header of more than 36 different keywords with a short keyword after the 36th", "short keywords in the second record of a header are not found.")
seed("s27_hdu_neg", "C19", [("io/fits_reader.hpp", "return hdu_list.at(index);", "return index < 0 ? hdu_list.front() : hdu_list.at(index);")],
     FP + r'''
int main() { put("f", head(prim(8, 0))); auto f = fits::open("f"); int got = 0; try { f[-1]; got = 1; } catch (std::exception&) { got = 2; } same("f[-1]", got, 2); return bad; }
''', "a negative HDU index", "asking for HDU -1 gives the primary HDU instead of an exception.")
seed("s28_fill_small", "C20", [("io/primary_hdu.hpp", "        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));", "        if (!image_data.empty() && logical_record_end_pos - current_write_pos < 2879)\n            file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));")],
     FP + r'''
int main() { for (int n : {1, 2, 2879, 2880, 2881}) { put("f", head(prim(8, n)) + fill(std::string(n, 'x'))); auto f = fits::open("f"); f.write_to("g"); same("size", slurp("g").size(), slurp("f").size()); } return bad; }
''', "a primary HDU whose data end one byte into a record", "the last record of such a data unit is not filled, so the next HDU starts at the wrong place.")
seed("s29_tform_blank", "C21", [("io/binary_table.hpp", "            start += column_size(this->col_metadata_[i].TFORM());", "            start += column_size(this->col_metadata_[i].TFORM());\n            if (i + 1 < this->tfields_ && get_type(this->col_metadata_[i].TFORM()) == 'P') start -= 4;")],
     FP + r'''
int main() { std::string c = table("BINTABLE", 12, 1, 2) + ks("TTYPE1", "A") + ks("TFORM1", "1P") + ks("TTYPE2", "B") + ks("TFORM2", "1J"); binary_table t(hdr(head(c)), std::string("abcdefghijkl")); same("position", t.get_column_metadata("B").TBCOL(), std::size_t(8)); return bad; }
''', "a column after an array descriptor column", "the byte position of columns after an array descriptor is four too small.")
seed("s30_ascii_dot", "C21", [("io/ascii_table.hpp", "        return boost::lexical_cast<std::size_t>(form.substr(1, decimal - 1));", "        return boost::lexical_cast<std::size_t>(form.substr(1, decimal > 2 && decimal < static_cast<int>(form.length()) ? 2 : decimal - 1));")],
     FP + r'''
int main() { same("F8.3", ascii_table::column_size("F8.3"), std::size_t(8)); same("E15.7", ascii_table::column_size("E15.7"), std::size_t(15)); same("D120.17", ascii_table::column_size("D120.17"), std::size_t(120)); same("A120", ascii_table::column_size("A120"), std::size_t(120)); return bad; }
''', "an ASCII real column at least 100 characters wide", "the width of such a column is cut to two digits.")
seed("s31_view_negzero", "C22", [("io/column_data.hpp", "        cached_index[row] = new_value;", "        auto seen = cached_index.find(row);\n        if (seen != cached_index.end() && seen->second == new_value)\n            return; // nothing to update\n        cached_index[row] = new_value;")],
     FP + r"""
int main() { std::string c = table("BINTABLE", 8, 2, 1) + ks("TTYPE1", "A") + ks("TFORM1", "1D"); binary_table t(hdr(head(c)), std::string(16, '\0')); auto& v = t.get_column<boost::float64_t>("A"); v[1] = -0.0; double x = v[1]; same("sign", bool(std::signbit(x)), true);
 const auto& d = static_cast<const binary_table&>(t).get_data(); same("cell", d[1][0], std::string("\x80\0\0\0\0\0\0\0", 8)); return bad; }
""", "storing a negative zero over a zero", "a value that compares equal to the old one but has other bytes is not stored.")
seed("s32_two_tables", "C23", [("io/default_hdus.hpp", "if (hdu_header.contains_keyword(\"SIMPLE\")) {", "if (hdu_header.contains_keyword(\"SIMPLE\") || hdu_header.contains_keyword(\"EXTEND\")) {")],
     FP + r'''
int main() { std::string c = table("BINTABLE", 4, 1, 1) + ks("TTYPE1", "A") + ks("TFORM1", "1J") + kb("EXTEND", false); put("f", head(prim(8, 0)) + head(c) + fill("abcd")); int ok = 0; try { auto f = fits::open("f"); fits::convert_to<binary_table>(f[1]); ok = 1; } catch (...) {} same("kind", ok, 1); return bad; }
''', "a table extension whose header has an EXTEND card", "such an extension is treated as a primary HDU and the file is rejected.")
seed("s33_name_idx", "C23", [("io/fits_reader.hpp", "                hdus_control_block.hdus_info[hdu_header.get_hdu_name()] = control_block::info(header_loc,data_loc, hdu_list.size(), false);\n                auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, hdu_data);\n                hdu_list.push_back(hdu_instance);",
      "                auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, hdu_data);\n                hdu_list.push_back(hdu_instance);\n                hdus_control_block.hdus_info[hdu_header.get_hdu_name()] = control_block::info(header_loc,data_loc, hdu_data.empty() && header_loc != 0 ? hdu_list.size() - 2 : hdu_list.size() - 1, false);")],
     FP + r'''
int main() { std::string c = table("BINTABLE", 4, 0, 1) + ks("TTYPE1", "A") + ks("TFORM1", "1J"); put("f", head(prim(8, 0)) + head(c)); auto f = fits::open("f"); same("by name", (void*)&f["BINTABLE"], (void*)&f[1]); return bad; }
''', "access by name to an extension without data", "an HDU with an empty data unit is found under its name at the index of the HDU before.")
seed("s34_mean_int", "C24", [("io/image.hpp", "            std::end(this->data_), 0.0) / this->data_.size());", "            std::end(this->data_), decltype(PixelType() + 0.0f)(0)) / this->data_.size());")],
     FP + r'''
int main() { image<bitpix::B32, binary_data_converter> im; std::vector<boost::int32_t> v{16777217, 1, 1, 1}; im.read_image(binary_data_converter::serialize(v)); same("mean", im.mean(), 16777220 / 4.0); return bad; }
''', "integer pixels whose sum needs more than 24 bits", "the mean of integer images is accumulated in single precision.")
seed("s35_median_lo", "C24", [("io/image.hpp", "        return sorted_array[sorted_array.size() / 2];", "        return sorted_array[sorted_array.size() > 2 && sorted_array[sorted_array.size() / 2] < 0 ? sorted_array.size() / 2 - 1 : sorted_array.size() / 2];")],
     FP + r'''
int main() { image<bitpix::B16, binary_data_converter> im; std::vector<boost::int16_t> v{-4, -1, -3, -2}; im.read_image(binary_data_converter::serialize(v)); same("median", int(im.median()), -2); return bad; }
''', "an image whose upper median is negative", "the median of mostly negative images is another pixel.")
seed("s36_cast_trim", "C25", [("io/string_conversion_utility.hpp", "                return boost::lexical_cast<T>(convert_str);", "                if (std::numeric_limits<T>::is_integer && !convert_str.empty() && convert_str.back() == '.')\n                    return boost::lexical_cast<T>(convert_str.substr(0, convert_str.size() - 1));\n                return boost::lexical_cast<T>(convert_str);")],
     FP + r'''
int main() { int got = 0; try { ascii_converter::deserialize_to<int>("12.", 0); got = 1; } catch (boost::astronomy::invalid_cast&) { got = 2; } same("12. as int", got, 2); same("12", ascii_converter::deserialize_to<int>("12", 0), 12); return bad; }
''', "a field that ends in a decimal point read as an integer", "a real number (12.) read as an integer is accepted instead of reported.")
