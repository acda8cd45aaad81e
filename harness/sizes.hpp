#pragma once
// lengths at which a count kept in too small a type, or a buffer of a round size, would show
static const unsigned kScale[] = {126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 4096, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131073};
