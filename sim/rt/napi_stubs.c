// Node-API functions the simulated engine does not offer: calling one ends the run as a harness error.
#include <stdio.h>
#include <unistd.h>
static int missing(const char *n) { fprintf(stderr, "harness: %s is not simulated\n", n); _exit(93); }
#define S(n) __attribute__((weak)) int n(void) { return missing(#n); }
S(napi_acquire_threadsafe_function)
S(napi_add_async_cleanup_hook)
S(napi_add_env_cleanup_hook)
S(napi_add_finalizer)
S(napi_adjust_external_memory)
S(napi_async_destroy)
S(napi_async_init)
S(napi_call_function)
S(napi_call_threadsafe_function)
S(napi_cancel_async_work)
S(napi_close_callback_scope)
S(napi_close_escapable_handle_scope)
S(napi_close_handle_scope)
S(napi_coerce_to_bool)
S(napi_coerce_to_number)
S(napi_coerce_to_object)
S(napi_coerce_to_string)
S(napi_create_array)
S(napi_create_array_with_length)
S(napi_create_arraybuffer)
S(napi_create_async_work)
S(napi_create_bigint_int64)
S(napi_create_bigint_uint64)
S(napi_create_bigint_words)
S(napi_create_buffer)
S(napi_create_buffer_copy)
S(napi_create_dataview)
S(napi_create_date)
S(napi_create_double)
S(napi_create_error)
S(napi_create_external)
S(napi_create_external_arraybuffer)
S(napi_create_external_buffer)
S(napi_create_function)
S(napi_create_int32)
S(napi_create_int64)
S(napi_create_object)
S(napi_create_promise)
S(napi_create_range_error)
S(napi_create_reference)
S(napi_create_string_latin1)
S(napi_create_string_utf16)
S(napi_create_string_utf8)
S(napi_create_symbol)
S(napi_create_threadsafe_function)
S(napi_create_type_error)
S(napi_create_typedarray)
S(napi_create_uint32)
S(napi_define_class)
S(napi_define_properties)
S(napi_delete_async_work)
S(napi_delete_element)
S(napi_delete_property)
S(napi_delete_reference)
S(napi_detach_arraybuffer)
S(napi_escape_handle)
S(napi_fatal_error)
S(napi_fatal_exception)
S(napi_get_all_property_names)
S(napi_get_and_clear_last_exception)
S(napi_get_array_length)
S(napi_get_arraybuffer_info)
S(napi_get_boolean)
S(napi_get_buffer_info)
S(napi_get_cb_info)
S(napi_get_dataview_info)
S(napi_get_date_value)
S(napi_get_element)
S(napi_get_global)
S(napi_get_instance_data)
S(napi_get_last_error_info)
S(napi_get_named_property)
S(napi_get_new_target)
S(napi_get_node_version)
S(napi_get_null)
S(napi_get_property)
S(napi_get_property_names)
S(napi_get_prototype)
S(napi_get_reference_value)
S(napi_get_threadsafe_function_context)
S(napi_get_typedarray_info)
S(napi_get_undefined)
S(napi_get_uv_event_loop)
S(napi_get_value_bigint_int64)
S(napi_get_value_bigint_uint64)
S(napi_get_value_bigint_words)
S(napi_get_value_bool)
S(napi_get_value_double)
S(napi_get_value_external)
S(napi_get_value_int32)
S(napi_get_value_int64)
S(napi_get_value_string_latin1)
S(napi_get_value_string_utf16)
S(napi_get_value_string_utf8)
S(napi_get_value_uint32)
S(napi_get_version)
S(napi_has_element)
S(napi_has_named_property)
S(napi_has_own_property)
S(napi_has_property)
S(napi_instanceof)
S(napi_is_array)
S(napi_is_arraybuffer)
S(napi_is_buffer)
S(napi_is_dataview)
S(napi_is_date)
S(napi_is_detached_arraybuffer)
S(napi_is_error)
S(napi_is_exception_pending)
S(napi_is_promise)
S(napi_is_typedarray)
S(napi_make_callback)
S(napi_module_register)
S(napi_new_instance)
S(napi_object_freeze)
S(napi_object_seal)
S(napi_open_callback_scope)
S(napi_open_escapable_handle_scope)
S(napi_open_handle_scope)
S(napi_queue_async_work)
S(napi_ref_threadsafe_function)
S(napi_reference_ref)
S(napi_reference_unref)
S(napi_reject_deferred)
S(napi_release_threadsafe_function)
S(napi_remove_async_cleanup_hook)
S(napi_remove_env_cleanup_hook)
S(napi_remove_wrap)
S(napi_resolve_deferred)
S(napi_run_script)
S(napi_set_element)
S(napi_set_instance_data)
S(napi_set_named_property)
S(napi_set_property)
S(napi_strict_equals)
S(napi_throw)
S(napi_throw_error)
S(napi_throw_range_error)
S(napi_throw_type_error)
S(napi_typeof)
S(napi_unref_threadsafe_function)
S(napi_unwrap)
S(napi_wrap)
