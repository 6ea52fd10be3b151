// Puts the library's variables where the scheduler runtime can reset them.
#pragma clang section bss="libbss" data="libdata"
