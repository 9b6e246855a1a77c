// included inside namespace std: streams as sequences of tokens
}
// what a file holds: the k-th token as a number, and whether it can be read
extern "C" { extern double vg_file_num[64]; extern long vg_file_int[64]; extern double vg_file_bad[64]; extern double vg_file_open; }
// what is written to a file: the text between two numbers (without blanks, as a hash) and the number
extern "C" { void eff_write_num(long file, unsigned long text, double v); void eff_write_int(long file, unsigned long text, long v); void eff_write_name(long file, unsigned long text, long v); void eff_write_end(long file, unsigned long text); }
namespace std {
struct vgif_
{
  long pos; bool ok; vgif_(char const *) : pos(0), ok(vg_file_open > 0) {} vgif_() : pos(0), ok(true) {} void open(char const *) { ok = vg_file_open > 0; } template <typename T> void setf(T) {} template <typename T> void unsetf(T) {} vgif_ & operator>>(char &) { return *this; } vgif_ & operator>>(vgstring_ & s) { long v = 0; integer(v); s = vgstring_(v); return *this; }
  bool operator!() const { return !ok; } bool good() const { return ok; } bool fail() const { return !ok; } bool eof() const { return !ok; } bool bad() const { return !ok; } operator void const *() const { return ok ? this : 0; } void close() {}
  template <typename T> vgif_ & num(T & x) { if (ok) { ok = !(vg_file_bad[pos] > 0); x = ok ? (T)vg_file_num[pos] : T(0); } ++pos; return *this; }
  template <typename T> vgif_ & integer(T & x) { if (ok) { ok = !(vg_file_bad[pos] > 0); x = ok ? (T)vg_file_int[pos] : T(0); } ++pos; return *this; }
  vgif_ & operator>>(double & x) { return num(x); } vgif_ & operator>>(float & x) { return num(x); }
  vgif_ & operator>>(int & x) { return integer(x); } vgif_ & operator>>(long & x) { return integer(x); } vgif_ & operator>>(unsigned & x) { return integer(x); } vgif_ & operator>>(unsigned long & x) { return integer(x); }
};
struct vgos_
{
  unsigned long text; long file; bool ok;
  vgos_() : text(0), file(0), ok(true) {}
  bool operator!() const { return !ok; } bool good() const { return ok; } bool fail() const { return !ok; } bool is_open() const { return ok; } void precision(long) {} void setf(int) {} template <typename T> void flags(T) {}
  vgos_ & put(char const * s) { text = vg_text(text, s); return *this; }
  vgos_ & num(double v) { if (ok) eff_write_num(file, text, v); text = 0; return *this; } vgos_ & integer(long v) { if (ok) eff_write_int(file, text, v); text = 0; return *this; } vgos_ & name(long v) { if (ok) eff_write_name(file, text, v); text = 0; return *this; }
  vgos_ & operator<<(basic_ostream<char> & (*)(basic_ostream<char> &)) { return *this; } vgos_ & operator<<(char const * s) { return put(s); } vgos_ & operator<<(char c) { char b[2] = { c, 0 }; return put(b); } vgos_ & flush() { return *this; } operator void const *() const { return ok ? this : 0; } vgos_ & operator<<(vgstring_ const & s) { return s.id == 0 ? *this : name(s.id); }
  vgos_ & operator<<(double v) { return num(v); } vgos_ & operator<<(float v) { return num(v); } vgos_ & operator<<(int v) { return integer(v); } vgos_ & operator<<(unsigned v) { return integer(v); } vgos_ & operator<<(long v) { return integer(v); } vgos_ & operator<<(unsigned long v) { return integer(v); } vgos_ & operator<<(bool v) { return integer(v); }
};
struct vgof_ : vgos_ { bool open; vgof_(char const * f) : open(true) { file = (long)f; ok = vg_file_open > 0; } void close() { if (ok && open) eff_write_end(file, text); open = false; } ~vgof_() { close(); } };
