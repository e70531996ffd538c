#include <caligo_src/sha3.cpp>
#include "hash.inc"
VF_ENTRY(Caligo::SHA3<224>, sha3_224)
VF_ENTRY(Caligo::SHA3<256>, sha3_256)
VF_ENTRY(Caligo::SHA3<384>, sha3_384)
VF_ENTRY(Caligo::SHA3<512>, sha3_512)
