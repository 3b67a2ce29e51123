// Minimal independent ZIP writer/reader used as the reference for archives.
#ifndef MC_ZIPMK_H_
#define MC_ZIPMK_H_
#include <string>
#include <vector>
#include <string.h>
#include <zlib.h>
namespace zipmk {
struct Entry { std::string name, data; int method; /*0 stored, 8 deflate*/ };
inline Entry E(const std::string& n, const std::string& d, int m = 0) { Entry e; e.name=n; e.data=d; e.method=m; return e; }
inline void p16(std::string& s, unsigned v) { s+=(char)(v&255); s+=(char)((v>>8)&255); }
inline void p32(std::string& s, unsigned long v) { p16(s,v&0xffff); p16(s,(v>>16)&0xffff); }
inline std::string deflate_raw(const std::string& in) {
  z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,9,Z_DEFLATED,-15,8,Z_DEFAULT_STRATEGY);
  std::string out(deflateBound(&z,in.size())+16,'\0');
  z.next_in=(Bytef*)in.data(); z.avail_in=in.size(); z.next_out=(Bytef*)&out[0]; z.avail_out=out.size();
  deflate(&z,Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
}
inline std::string make(const std::vector<Entry>& es, const std::string& comment = "") {
  std::string out, cd;
  for (size_t i=0;i<es.size();++i) {
    const Entry& e=es[i];
    unsigned long crc=crc32(0,(const Bytef*)e.data.data(),e.data.size());
    std::string c = e.method==8 ? deflate_raw(e.data) : e.data;
    unsigned long off=out.size();
    p32(out,0x04034b50); p16(out,20); p16(out,0); p16(out,e.method); p32(out,0x00210000); p32(out,crc); p32(out,c.size()); p32(out,e.data.size()); p16(out,e.name.size()); p16(out,0);
    out+=e.name; out+=c;
    p32(cd,0x02014b50); p16(cd,20); p16(cd,20); p16(cd,0); p16(cd,e.method); p32(cd,0x00210000); p32(cd,crc); p32(cd,c.size()); p32(cd,e.data.size()); p16(cd,e.name.size()); p16(cd,0); p16(cd,0); p16(cd,0); p16(cd,0); p32(cd,0); p32(cd,off);
    cd+=e.name;
  }
  unsigned long cdoff=out.size();
  out+=cd; p32(out,0x06054b50); p16(out,0); p16(out,0); p16(out,es.size()); p16(out,es.size()); p32(out,cd.size()); p32(out,cdoff); p16(out,comment.size()); out+=comment;
  return out;
}
inline unsigned g16(const std::string& s, size_t o) { return (unsigned char)s[o] | ((unsigned char)s[o+1]<<8); }
inline unsigned long g32(const std::string& s, size_t o) { return g16(s,o) | ((unsigned long)g16(s,o+2)<<16); }
// Strict reader: central directory must be consistent with local headers.
inline bool read(const std::string& z, std::vector<Entry>* out, std::string* why) {
  if (z.size()<22) { *why="short"; return false; }
  size_t e=std::string::npos;
  for (size_t i=z.size()-22+1;i-->0;) if (g32(z,i)==0x06054b50) { e=i; break; }
  if (e==std::string::npos) { *why="no EOCD"; return false; }
  if (e+22+g16(z,e+20)!=z.size()) { *why="trailing bytes"; return false; }
  unsigned n=g16(z,e+10); size_t cds=g32(z,e+12), cdo=g32(z,e+16);
  if (cdo+cds!=e) { *why="central directory bounds"; return false; }
  size_t p=cdo;
  for (unsigned i=0;i<n;++i) {
    if (p+46>e || g32(z,p)!=0x02014b50) { *why="bad central header"; return false; }
    unsigned method=g16(z,p+10); unsigned long crc=g32(z,p+16), cs=g32(z,p+20), us=g32(z,p+24); unsigned nl=g16(z,p+28), xl=g16(z,p+30), cl=g16(z,p+32); size_t lo=g32(z,p+42);
    Entry en; en.name=z.substr(p+46,nl); en.method=method;
    if (lo+30>cdo || g32(z,lo)!=0x04034b50) { *why="bad local header"; return false; }
    size_t d=lo+30+g16(z,lo+26)+g16(z,lo+28);
    if (z.substr(lo+30,g16(z,lo+26))!=en.name) { *why="local name differs"; return false; }
    if (d+cs>cdo) { *why="data bounds"; return false; }
    std::string raw=z.substr(d,cs);
    if (method==0) en.data=raw;
    else if (method==8) {
      en.data.assign(us+1,'\0'); z_stream s; memset(&s,0,sizeof s); inflateInit2(&s,-15);
      s.next_in=(Bytef*)raw.data(); s.avail_in=raw.size(); s.next_out=(Bytef*)&en.data[0]; s.avail_out=us+1;
      int r=inflate(&s,Z_FINISH); size_t got=s.total_out; inflateEnd(&s);
      if (r!=Z_STREAM_END) { *why="inflate"; return false; }
      en.data.resize(got);
    } else { *why="method"; return false; }
    if (en.data.size()!=us) { *why="size"; return false; }
    if (crc32(0,(const Bytef*)en.data.data(),en.data.size())!=crc) { *why="crc"; return false; }
    out->push_back(en); p+=46+nl+xl+cl;
  }
  if (p!=e) { *why="central directory size"; return false; }
  return true;
}
}  // namespace zipmk
#endif
