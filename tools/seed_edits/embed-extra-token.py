sub('src/ml/rotary_positional_embedding.hpp','''                if (position >= sequence_length_) {
                    break;''','''                if (position > sequence_length_) {
                    break;''')
