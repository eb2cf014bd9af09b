// Stands in for the Windows spelling in src/create_tokenizer.cpp: #include "ml\byte_pair_encoder.hpp"
#include "/repo/src/ml/byte_pair_encoder.hpp"
