sub('src/ml/byte_pair_encoder.hpp','''            sort(ordered_bpe_codes.begin(), ordered_bpe_codes.end(),
                 [](const pair<u16string, u16string> &a, const pair<u16string, u16string> &b) {
                     return a.second > b.second;
                 });
            ordered_bpe_codes_.swap(ordered_bpe_codes);
            for''','''            sort(ordered_bpe_codes.begin(), ordered_bpe_codes.end(),
                 [](const pair<u16string, u16string> &a, const pair<u16string, u16string> &b) {
                     return a.first < b.first;
                 });
            ordered_bpe_codes_.swap(ordered_bpe_codes);
            for''')
