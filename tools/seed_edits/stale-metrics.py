f='src/ml/hyperband/configuration_evaluator.hpp'
sub(f,'''            configuration->evaluation_metric = evaluationMetric;
            configuration->minimize_metric = minimize_metric_;
''','''            configuration->minimize_metric = minimize_metric_;
''')
sub(f,'''                best_evaluation_metric_ = evaluationMetric;
                best_model_name_''','''                best_evaluation_metric_ = configuration->evaluation_metric = evaluationMetric;
                best_model_name_''')
