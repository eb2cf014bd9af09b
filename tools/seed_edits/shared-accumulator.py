sub('src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp','            float result = 0.f;\n','            static float result;\n            result = 0.f;\n')
