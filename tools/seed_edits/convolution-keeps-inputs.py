sub('src/ml/layers/convolution_2d_valid_layer.hpp','''            if (forTraining) {
                lastInputs.push(lastInput);
            }''','''            if (forTraining || lastInputs.empty()) {
                lastInputs.push(lastInput);
            }''')
