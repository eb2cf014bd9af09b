sub('src/types/quarter_float.hpp','(raw_mantissa < 0b111 && (extra_mantissa > 0))','(raw_mantissa <= 0b111 && (extra_mantissa > 0))')
