// What ParaView files hold.
#ifndef VTU_HPP
#define VTU_HPP
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
using std::string;
using std::vector;
// fields of a ParaView file (as base64)
static vector<double> decode(const string &b64)
{
   static const string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
   string raw; unsigned acc = 0; int bits = 0;
   for (char ch : b64)
   {
      if (ch == '=') { bits = 0; acc = 0; continue; }     // end of one encoded piece
      size_t p = A.find(ch);
      if (p == string::npos) continue;
      acc = (acc << 6) | p; bits += 6;
      if (bits >= 8) { bits -= 8; raw += (char) ((acc >> bits) & 255); }
   }
   unsigned n = 0; vector<double> r;
   if (raw.size() < 4) return r;
   memcpy(&n, raw.data(), 4);
   if (raw.size() < 4 + n) return r;
   r.resize(n / 8); memcpy(r.data(), raw.data() + 4, r.size() * 8);
   return r;
}
#endif
