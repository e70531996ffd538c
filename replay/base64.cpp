#include <cstring>
#include "util.h"
#include <caligo/base64.h>
using namespace Caligo;
// enc data newlines omit set | dec text
int main() {
  return serve({{"enc", [](std::vector<std::string>& a) { Exact x(unhex(a[1])); return hex(base64(x.span(), a[2] == "1", a[3] == "1", (Base64CharSet)std::stoi(a[4]))); }},
                {"dec", [](std::vector<std::string>& a) { Exact x(unhex(a[1])); return hex(base64d(x.sv())); }}});
}
