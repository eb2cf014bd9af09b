sub('src/types/tensor_views/concat_wide_tensor_view.h','return right_child_->getValue(row, column - left_child_->columnCount(), channel);','return right_child_->getValue(row, column - left_child_->columnCount(), 0);')
