sub('src/util/tensor_utils.hpp','values->M2 += delta * delta2;','values->M2 += delta2 * delta2;')
