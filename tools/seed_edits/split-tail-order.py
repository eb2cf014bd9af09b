sub('src/util/shuffler.hpp','std::mt19937 gen(42);','std::mt19937 gen(std::random_device{}());')
