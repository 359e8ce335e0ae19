"""Names that real objects have: reading one the analysis has no rule for is a gap of the analysis, not an error of the program."""
MODULE = frozenset("""
T_destination __annotations__ __call__ __class__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattr__ __getattribute__
__getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__
__setstate__ __sizeof__ __str__ __subclasshook__ __weakref__ _apply _backward_hooks _backward_pre_hooks _buffers _call_impl _compiled_call_impl
_forward_hooks _forward_hooks_always_called _forward_hooks_with_kwargs _forward_pre_hooks _forward_pre_hooks_with_kwargs _get_backward_hooks
_get_backward_pre_hooks _get_name _is_full_backward_hook _load_from_state_dict _load_state_dict_post_hooks _load_state_dict_pre_hooks
_maybe_warn_non_full_backward_hook _modules _named_members _non_persistent_buffers_set _parameters _register_load_state_dict_pre_hook
_register_state_dict_hook _replicate_for_data_parallel _save_to_state_dict _slow_forward _state_dict_hooks _state_dict_pre_hooks _version
_wrapped_call_impl add_module apply bfloat16 buffers call_super_init children compile cpu cuda double dump_patches eval extra_repr float forward
get_buffer get_extra_state get_parameter get_submodule half ipu load_state_dict modules mtia named_buffers named_children named_modules
named_parameters parameters register_backward_hook register_buffer register_forward_hook register_forward_pre_hook register_full_backward_hook
register_full_backward_pre_hook register_load_state_dict_post_hook register_load_state_dict_pre_hook register_module register_parameter
register_state_dict_post_hook register_state_dict_pre_hook requires_grad_ set_extra_state set_submodule share_memory state_dict to to_empty train
training type xpu zero_grad
""".split())
MODLIST = frozenset("""
T_destination __add__ __annotations__ __call__ __class__ __constants__ __delattr__ __delitem__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__
__getattr__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __imul__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__
__module__ __mul__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __rmul__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __subclasshook__
__weakref__ _apply _backward_hooks _backward_pre_hooks _buffers _call_impl _compiled_call_impl _forward_hooks _forward_hooks_always_called
_forward_hooks_with_kwargs _forward_pre_hooks _forward_pre_hooks_with_kwargs _get_abs_string_index _get_backward_hooks _get_backward_pre_hooks
_get_item_by_idx _get_name _is_full_backward_hook _load_from_state_dict _load_state_dict_post_hooks _load_state_dict_pre_hooks
_maybe_warn_non_full_backward_hook _modules _named_members _non_persistent_buffers_set _parameters _register_load_state_dict_pre_hook
_register_state_dict_hook _replicate_for_data_parallel _save_to_state_dict _slow_forward _state_dict_hooks _state_dict_pre_hooks _version
_wrapped_call_impl add_module append apply bfloat16 bias buffers call_super_init children compile cpu cuda double dump_patches eval extend extra_repr
float forward get_buffer get_extra_state get_parameter get_submodule half in_features insert ipu load_state_dict modules mtia named_buffers
named_children named_modules named_parameters out_features parameters pop register_backward_hook register_buffer register_forward_hook
register_forward_pre_hook register_full_backward_hook register_full_backward_pre_hook register_load_state_dict_post_hook
register_load_state_dict_pre_hook register_module register_parameter register_state_dict_post_hook register_state_dict_pre_hook requires_grad_
reset_parameters set_extra_state set_submodule share_memory state_dict to to_empty train training type weight xpu zero_grad
""".split())
TENSOR = frozenset("""
H T __abs__ __add__ __and__ __annotations__ __array__ __array_priority__ __array_wrap__ __bool__ __class__ __complex__ __contains__
__cuda_array_interface__ __deepcopy__ __delattr__ __delitem__ __dict__ __dir__ __div__ __dlpack__ __dlpack_c_exchange_api__ __dlpack_device__ __doc__
__eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __idiv__ __ifloordiv__
__ilshift__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__
__ixor__ __le__ __len__ __long__ __lshift__ __lt__ __matmul__ __mod__ __module__ __mul__ __ne__ __neg__ __new__ __nonzero__ __or__ __pos__ __pow__
__radd__ __rand__ __rdiv__ __reduce__ __reduce_ex__ __repr__ __reversed__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__
__rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__
__torch_dispatch__ __torch_function__ __truediv__ __weakref__ __xor__ _addmm_activation _autocast_to_full_precision _autocast_to_reduced_precision
_backward_hooks _base _cdata _clear_non_serializable_cached_data _coalesced_ _conj _conj_physical _dimI _dimV _dtensor__new__ _fix_weakref _grad
_grad_fn _has_grad_dtype_override _has_symbolic_sizes_strides _indices _is_all_true _is_any_true _is_view _is_zerotensor _lazy_clone _make_subclass
_make_wrapper_subclass _neg_view _nested_tensor_size _nested_tensor_storage_offsets _nested_tensor_strides _nnz _philox_normal_ _philox_randint_
_philox_uniform_ _post_accumulate_grad_hooks _python_dispatch _reduce_ex_internal _rev_view_func_unsafe _sparse_mask_projection _to_dense _to_sparse
_to_sparse_bsc _to_sparse_bsr _to_sparse_csc _to_sparse_csr _typed_storage _use_count _values _version _view_func _view_func_unsafe abs abs_ absolute
absolute_ acos acos_ acosh acosh_ add add_ addbmm addbmm_ addcdiv addcdiv_ addcmul addcmul_ addmm addmm_ addmv addmv_ addr addr_ adjoint all allclose
amax amin aminmax angle any apply_ arccos arccos_ arccosh arccosh_ arcsin arcsin_ arcsinh arcsinh_ arctan arctan2 arctan2_ arctan_ arctanh arctanh_
argmax argmin argsort argwhere as_strided as_strided_ as_strided_scatter as_subclass asin asin_ asinh asinh_ atan atan2 atan2_ atan_ atanh atanh_
backward baddbmm baddbmm_ bernoulli bernoulli_ bfloat16 bincount bitwise_and bitwise_and_ bitwise_left_shift bitwise_left_shift_ bitwise_not
bitwise_not_ bitwise_or bitwise_or_ bitwise_right_shift bitwise_right_shift_ bitwise_xor bitwise_xor_ bmm bool broadcast_to byte cauchy_ ccol_indices
cdouble ceil ceil_ cfloat chalf char cholesky cholesky_inverse cholesky_solve chunk clamp clamp_ clamp_max clamp_max_ clamp_min clamp_min_ clip clip_
clone coalesce col_indices conj conj_physical conj_physical_ const_data_ptr contiguous copy_ copysign copysign_ corrcoef cos cos_ cosh cosh_
count_nonzero cov cpu cross crow_indices cuda cummax cummin cumprod cumprod_ cumsum cumsum_ data data_ptr deg2rad deg2rad_ dense_dim dequantize det
detach detach_ device diag diag_embed diagflat diagonal diagonal_scatter diff digamma digamma_ dim dim_order dist div div_ divide divide_ dot double
dsplit dtype eig element_size eq eq_ equal erf erf_ erfc erfc_ erfinv erfinv_ exp exp2 exp2_ exp_ expand expand_as expm1 expm1_ exponential_ fill_
fill_diagonal_ fix fix_ flatten flip fliplr flipud float float_power float_power_ floor floor_ floor_divide floor_divide_ fmax fmin fmod fmod_ frac
frac_ frexp gather gcd gcd_ ge ge_ geometric_ geqrf ger get_device grad grad_dtype grad_fn greater greater_ greater_equal greater_equal_ gt gt_ half
hardshrink hash_tensor heaviside heaviside_ histc histogram hsplit hypot hypot_ i0 i0_ igamma igamma_ igammac igammac_ imag index index_add index_add_
index_copy index_copy_ index_fill index_fill_ index_put index_put_ index_reduce index_reduce_ index_select indices inner int int_repr inverse ipu
is_coalesced is_complex is_conj is_contiguous is_cpu is_cuda is_distributed is_floating_point is_inference is_ipu is_leaf is_maia is_meta is_mkldnn
is_mps is_mtia is_neg is_nested is_nonzero is_pinned is_quantized is_same_size is_set_to is_shared is_signed is_sparse is_sparse_csr is_vulkan is_xla
is_xpu isclose isfinite isinf isnan isneginf isposinf isreal istft item itemsize kron kthvalue layout lcm lcm_ ldexp ldexp_ le le_ lerp lerp_ less
less_ less_equal less_equal_ lgamma lgamma_ log log10 log10_ log1p log1p_ log2 log2_ log_ log_normal_ log_softmax logaddexp logaddexp2 logcumsumexp
logdet logical_and logical_and_ logical_not logical_not_ logical_or logical_or_ logical_xor logical_xor_ logit logit_ logsumexp long lstsq lt lt_ lu
lu_solve mH mT map2_ map_ masked_fill masked_fill_ masked_scatter masked_scatter_ masked_select matmul matrix_exp matrix_power max maximum mean median
min minimum mm mode module_load moveaxis movedim msort mtia mul mul_ multinomial multiply multiply_ mv mvlgamma mvlgamma_ name nan_to_num nan_to_num_
nanmean nanmedian nanquantile nansum narrow narrow_copy nbytes ndim ndimension ne ne_ neg neg_ negative negative_ nelement new new_empty
new_empty_strided new_full new_ones new_tensor new_zeros nextafter nextafter_ nonzero nonzero_static norm normal_ not_equal not_equal_ numel numpy
orgqr ormqr outer output_nr permute pin_memory pinverse polygamma polygamma_ positive pow pow_ prelu prod put put_ q_per_channel_axis
q_per_channel_scales q_per_channel_zero_points q_scale q_zero_point qr qscheme quantile rad2deg rad2deg_ random_ ravel real reciprocal reciprocal_
record_stream register_hook register_post_accumulate_grad_hook reinforce relu relu_ remainder remainder_ renorm renorm_ repeat repeat_interleave
requires_grad requires_grad_ reshape reshape_as resize resize_ resize_as resize_as_ resize_as_sparse_ resolve_conj resolve_neg retain_grad
retains_grad roll rot90 round round_ row_indices rsqrt rsqrt_ scatter scatter_ scatter_add scatter_add_ scatter_reduce scatter_reduce_ select
select_scatter set_ sgn sgn_ shape share_memory_ short sigmoid sigmoid_ sign sign_ signbit sin sin_ sinc sinc_ sinh sinh_ size slice_inverse
slice_scatter slogdet smm softmax solve sort sparse_dim sparse_mask sparse_resize_ sparse_resize_and_clear_ split split_with_sizes sqrt sqrt_ square
square_ squeeze squeeze_ sspaddmm std stft storage storage_offset storage_type stride sub sub_ subtract subtract_ sum sum_to_size svd swapaxes
swapaxes_ swapdims swapdims_ symeig t t_ take take_along_dim tan tan_ tanh tanh_ tensor_split tile to to_dense to_mkldnn to_padded_tensor to_sparse
to_sparse_bsc to_sparse_bsr to_sparse_coo to_sparse_csc to_sparse_csr tolist topk trace transpose transpose_ triangular_solve tril tril_ triu triu_
true_divide true_divide_ trunc trunc_ type type_as unbind unflatten unfold uniform_ unique unique_consecutive unsafe_chunk unsafe_split
unsafe_split_with_sizes unsqueeze unsqueeze_ untyped_storage values var vdot view view_as volatile vsplit where xlogy xlogy_ xpu zero_
""".split())
DTYPE = frozenset("""
__class__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__
__module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ abbr is_complex is_floating_point
is_signed itemsize to_complex to_real
""".split())
DEVICE = frozenset("""
__class__ __delattr__ __dir__ __doc__ __enter__ __eq__ __exit__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__
__init_subclass__ __le__ __lt__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ index type
""".split())
SIZE = frozenset("""
__add__ __class__ __class_getitem__ __contains__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getnewargs__
__getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __mul__ __ne__ __new__ __radd__ __reduce__ __reduce_ex__
__repr__ __rmul__ __setattr__ __sizeof__ __str__ __subclasshook__ count index numel
""".split())
FUNC = frozenset("""
__annotations__ __builtins__ __call__ __class__ __closure__ __code__ __defaults__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__
__get__ __getattribute__ __getstate__ __globals__ __gt__ __hash__ __init__ __init_subclass__ __kwdefaults__ __le__ __lt__ __module__ __name__ __ne__
__new__ __qualname__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ __type_params__ __call__ __class__ __delattr__
__dir__ __doc__ __eq__ __format__ __func__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __ne__
__new__ __reduce__ __reduce_ex__ __repr__ __self__ __setattr__ __sizeof__ __str__ __subclasshook__
""".split())
OBJ = frozenset("""
__class__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__
__ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__
""".split())
TYPE = frozenset("""
__abstractmethods__ __annotations__ __base__ __bases__ __basicsize__ __call__ __class__ __delattr__ __dict__ __dictoffset__ __dir__ __doc__ __eq__
__flags__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __instancecheck__ __itemsize__ __le__ __lt__
__module__ __mro__ __name__ __ne__ __new__ __or__ __prepare__ __qualname__ __reduce__ __reduce_ex__ __repr__ __ror__ __setattr__ __sizeof__ __str__
__subclasscheck__ __subclasses__ __subclasshook__ __text_signature__ __type_params__ __weakrefoffset__ mro
""".split())
