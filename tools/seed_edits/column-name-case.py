sub('src/util/task_utils.hpp','            std::transform(column_name.begin(), column_name.end(), column_name.begin(), ::tolower);\n','')
