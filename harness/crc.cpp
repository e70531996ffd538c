#include <caligo_src/crc.cpp>
#include "hash.inc"
VF_ENTRY(Caligo::CRC32, crc)
