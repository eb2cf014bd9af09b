sub('src/ml/neural_network.hpp','if (batchOffset >= batchSize || nextRecord == nullptr) {','if (batchOffset >= batchSize) {')
