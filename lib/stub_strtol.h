/* trusted model of strtol for the base-2 digit strings the decoders build (exact for them) */
#ifndef STUB_STRTOL_H
#define STUB_STRTOL_H
long strtol(const char* s, char** e, int base) {
    long r = 0;
    __CPROVER_assert(base == 2 && e == 0, "strtol model: base 2, no end pointer");
    for (int i = 0; i < 14; i++) { if (s[i] != '0' && s[i] != '1') break; r = 2 * r + (s[i] - '0'); }
    return r;
}
#endif
