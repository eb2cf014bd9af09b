sub('src/ml/layers/dropout_layer.hpp','return {make_shared<ElementWiseMultiplyTensorView>(output_error, dropout_mask_)};','return {make_shared<ScalarMultiplyTensorView>(output_error, forward_scale_)};')
