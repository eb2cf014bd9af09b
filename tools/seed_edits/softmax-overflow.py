sub('src/ml/activators/softmax_activation_function.hpp','make_shared<ScalarSubtractTensorView>(input, max_input)','make_shared<ScalarSubtractTensorView>(input, std::min(max_input, 50.0))')
