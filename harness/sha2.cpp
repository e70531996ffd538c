#include <caligo_src/sha2.cpp>
#include "hash.inc"
VF_ENTRY(Caligo::SHA2<256>, sha256)
VF_ENTRY(Caligo::SHA2<224>, sha224)
VF_ENTRY(Caligo::SHA2<512>, sha512)
VF_ENTRY(Caligo::SHA2<384>, sha384)
