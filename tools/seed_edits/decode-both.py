sub('src/training_data/data_decoder.hpp','if (is_normalized) {','if (is_normalized && !is_standardized) {')
sub('src/training_data/data_decoder.hpp','''                                                              standard_deviation);
            }
            return result;''','''                                                              standard_deviation);
                if (is_normalized) {
                    result = make_shared<DenormalizeTensorView>(result, min_value, max_value);
                }
            }
            return result;''')
