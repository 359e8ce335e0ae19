"""Static analysis of TorchMPS: an abstract interpreter over its syntax trees."""
