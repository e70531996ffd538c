#include <caligo_src/md5.cpp>
#include "hash.inc"
VF_ENTRY(Caligo::MD5, md5)
