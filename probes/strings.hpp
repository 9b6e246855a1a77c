// included inside namespace std: strings as numbers; the text of a literal becomes its hash, concatenation combines numbers
inline long vg_text(long h, char const * s) { for (int i = 0; i < 500 && s[i]; ++i) if (s[i] != ' ' && s[i] != 10) h = (h * 31 + (unsigned char)s[i]) & 0x3fffffffL; return h; }
struct vgstring_
{
  long id; vgstring_() : id(0) {} vgstring_(char const * s) : id(vg_text(0, s)) {} explicit vgstring_(long i) : id(i) {}
  char const * c_str() const { return (char const *)id; } operator basic_string<char>() const { return basic_string<char>(); } typedef unsigned long size_type; static const size_type npos = -1;
  size_type rfind(char const *) const { return npos; } size_type size() const { return 0; } char operator[](size_type) const { return 0; } char * begin() { return 0; } char * end() { return 0; } char const * begin() const { return 0; } char const * end() const { return 0; } size_type rfind(char) const { return npos; } size_type find_first_of(char) const { return npos; } void append(size_type, char) {} void resize(size_type) {} void clear() { id = 0; }
  bool empty() const { return id == 0; } size_type length() const { return 0; } void reserve(size_type) {} size_type find(char const *) const { return npos; } size_type find(char) const { return npos; }
  size_type find_last_of(char const *) const { return npos; } size_type find_last_of(char) const { return npos; } size_type find_first_of(char const *) const { return npos; }
  vgstring_ & operator+=(vgstring_ const & o) { id = (id * 10007 + o.id) & 0x3fffffffL; return *this; } vgstring_ & append(vgstring_ const & o) { return *this += o; } vgstring_ & operator+=(char const * s) { return *this += vgstring_(s); } vgstring_ & append(char const * s) { return *this += s; }
  vgstring_ substr(size_type, size_type = 0) const { return *this; }
};
inline bool operator==(vgstring_ const & a, char const * b) { return a.id == vg_text(0, b); } inline bool operator!=(vgstring_ const & a, char const * b) { return a.id != vg_text(0, b); }
inline bool operator<(vgstring_ const & a, vgstring_ const & b) { return a.id < b.id; } inline bool operator==(vgstring_ const & a, vgstring_ const & b) { return a.id == b.id; } inline bool operator!=(vgstring_ const & a, vgstring_ const & b) { return a.id != b.id; }
struct vgstream_
{
  long v; vgstream_() : v(0) {} vgstring_ str() const { return vgstring_(v); } vgstream_ & add(long i) { v = (v * 10007 + i) & 0x3fffffffL; return *this; }
};
inline vgstream_ & operator<<(vgstream_ & s, int i) { return s.add(i); } inline vgstream_ & operator<<(vgstream_ & s, long i) { return s.add(i); } inline vgstream_ & operator<<(vgstream_ & s, unsigned i) { return s.add(i); } inline vgstream_ & operator<<(vgstream_ & s, unsigned long i) { return s.add(i); } inline vgstream_ & operator<<(vgstream_ & s, double) { return s; }
inline vgstream_ & operator<<(vgstream_ & s, char const * t) { return s.add(vg_text(0, t)); } inline vgstream_ & operator<<(vgstream_ & s, vgstring_ const & x) { return s.add(x.id); }
inline ostream & operator<<(ostream & s, vgstring_ const &) { return s; }
inline vgstring_ operator+(vgstring_ const & a, vgstring_ const & b) { return vgstring_((a.id * 10007 + b.id) & 0x3fffffffL); } inline vgstring_ operator+(char const * a, vgstring_ const & b) { return vgstring_(a) + b; } inline vgstring_ operator+(vgstring_ const & a, char const * b) { return a + vgstring_(b); }
inline vgstream_ & operator<<(vgstream_ & s, basic_ostream<char> & (*)(basic_ostream<char> &)) { return s; }
