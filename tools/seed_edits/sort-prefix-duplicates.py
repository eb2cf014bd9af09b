sub('src/util/text_file_sorter.hpp','line == previous_line)','line.compare(0, previous_line.size(), previous_line) == 0)')
