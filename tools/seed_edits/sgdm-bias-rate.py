sub('src/ml/optimizers/sgdm_optimizer.hpp','make_shared<ScalarMultiplyTensorView>(loss_gradient, biasLearningRate)','make_shared<ScalarMultiplyTensorView>(loss_gradient, learningRate)')
