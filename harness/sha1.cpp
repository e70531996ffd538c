#include <caligo_src/sha1.cpp>
#include "hash.inc"
VF_ENTRY(Caligo::SHA1, sha1)
