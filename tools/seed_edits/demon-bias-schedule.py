sub('src/ml/optimizers/adam_optimizer.hpp','time_step > last_time_step_updated_bias','time_step > last_time_step_updated_weights')
