sub('src/types/base_tensors.hpp','multiset<IndexValue> sortedValues;','set<IndexValue> sortedValues;')
sub('src/types/base_tensors.hpp','multiset<IndexValue>::reverse_iterator reverseIterator;','set<IndexValue>::reverse_iterator reverseIterator;')
