sub('src/util/pretty_print_row.hpp','                string value;\n                if (current_height','                if (current_height')
sub('src/util/pretty_print_row.hpp','            size_t column_index = 0;\n            for (auto &row_value: row_values) {\n                size_t width','            size_t column_index = 0;\n            string value;\n            for (auto &row_value: row_values) {\n                size_t width')
