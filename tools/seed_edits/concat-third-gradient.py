sub('src/ml/layers/concatenate_wide_layer.hpp','start_column += input_column_count;','start_column = input_column_count;')
