/* generated by gen_stubs.sh: what a program may refer to and the simulation does not implement */
#include "simrt.h"
__attribute__((weak)) int MPI_AINT_ADD_F90(void) { sim_fail(V_UNSUPPORTED, "MPI_AINT_ADD_F90"); }
__attribute__((weak)) int MPI_AINT_DIFF_F90(void) { sim_fail(V_UNSUPPORTED, "MPI_AINT_DIFF_F90"); }
__attribute__((weak)) int MPI_Abort(void) { sim_fail(V_UNSUPPORTED, "MPI_Abort"); }
__attribute__((weak)) int MPI_Accumulate(void) { sim_fail(V_UNSUPPORTED, "MPI_Accumulate"); }
__attribute__((weak)) int MPI_Add_error_class(void) { sim_fail(V_UNSUPPORTED, "MPI_Add_error_class"); }
__attribute__((weak)) int MPI_Add_error_code(void) { sim_fail(V_UNSUPPORTED, "MPI_Add_error_code"); }
__attribute__((weak)) int MPI_Add_error_string(void) { sim_fail(V_UNSUPPORTED, "MPI_Add_error_string"); }
__attribute__((weak)) int MPI_Address(void) { sim_fail(V_UNSUPPORTED, "MPI_Address"); }
__attribute__((weak)) int MPI_Allgather(void) { sim_fail(V_UNSUPPORTED, "MPI_Allgather"); }
__attribute__((weak)) int MPI_Allgatherv(void) { sim_fail(V_UNSUPPORTED, "MPI_Allgatherv"); }
__attribute__((weak)) int MPI_Alloc_mem(void) { sim_fail(V_UNSUPPORTED, "MPI_Alloc_mem"); }
__attribute__((weak)) int MPI_Allreduce(void) { sim_fail(V_UNSUPPORTED, "MPI_Allreduce"); }
__attribute__((weak)) int MPI_Alltoall(void) { sim_fail(V_UNSUPPORTED, "MPI_Alltoall"); }
__attribute__((weak)) int MPI_Alltoallv(void) { sim_fail(V_UNSUPPORTED, "MPI_Alltoallv"); }
__attribute__((weak)) int MPI_Alltoallw(void) { sim_fail(V_UNSUPPORTED, "MPI_Alltoallw"); }
__attribute__((weak)) int MPI_Attr_delete(void) { sim_fail(V_UNSUPPORTED, "MPI_Attr_delete"); }
__attribute__((weak)) int MPI_Attr_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Attr_get"); }
__attribute__((weak)) int MPI_Attr_put(void) { sim_fail(V_UNSUPPORTED, "MPI_Attr_put"); }
__attribute__((weak)) int MPI_Barrier(void) { sim_fail(V_UNSUPPORTED, "MPI_Barrier"); }
__attribute__((weak)) int MPI_Bcast(void) { sim_fail(V_UNSUPPORTED, "MPI_Bcast"); }
__attribute__((weak)) int MPI_Bsend(void) { sim_fail(V_UNSUPPORTED, "MPI_Bsend"); }
__attribute__((weak)) int MPI_Bsend_init(void) { sim_fail(V_UNSUPPORTED, "MPI_Bsend_init"); }
__attribute__((weak)) int MPI_Buffer_attach(void) { sim_fail(V_UNSUPPORTED, "MPI_Buffer_attach"); }
__attribute__((weak)) int MPI_Buffer_detach(void) { sim_fail(V_UNSUPPORTED, "MPI_Buffer_detach"); }
__attribute__((weak)) int MPI_COMM_DUP_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_COMM_DUP_FN"); }
__attribute__((weak)) int MPI_COMM_NULL_COPY_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_COMM_NULL_COPY_FN"); }
__attribute__((weak)) int MPI_COMM_NULL_DELETE_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_COMM_NULL_DELETE_FN"); }
__attribute__((weak)) int MPI_CONVERSION_FN_NULL(void) { sim_fail(V_UNSUPPORTED, "MPI_CONVERSION_FN_NULL"); }
__attribute__((weak)) int MPI_Cancel(void) { sim_fail(V_UNSUPPORTED, "MPI_Cancel"); }
__attribute__((weak)) int MPI_Cart_coords(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_coords"); }
__attribute__((weak)) int MPI_Cart_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_create"); }
__attribute__((weak)) int MPI_Cart_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_get"); }
__attribute__((weak)) int MPI_Cart_map(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_map"); }
__attribute__((weak)) int MPI_Cart_rank(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_rank"); }
__attribute__((weak)) int MPI_Cart_shift(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_shift"); }
__attribute__((weak)) int MPI_Cart_sub(void) { sim_fail(V_UNSUPPORTED, "MPI_Cart_sub"); }
__attribute__((weak)) int MPI_Cartdim_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Cartdim_get"); }
__attribute__((weak)) int MPI_Close_port(void) { sim_fail(V_UNSUPPORTED, "MPI_Close_port"); }
__attribute__((weak)) int MPI_Comm_accept(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_accept"); }
__attribute__((weak)) int MPI_Comm_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_c2f"); }
__attribute__((weak)) int MPI_Comm_call_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_call_errhandler"); }
__attribute__((weak)) int MPI_Comm_compare(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_compare"); }
__attribute__((weak)) int MPI_Comm_connect(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_connect"); }
__attribute__((weak)) int MPI_Comm_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_create"); }
__attribute__((weak)) int MPI_Comm_create_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_create_errhandler"); }
__attribute__((weak)) int MPI_Comm_create_group(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_create_group"); }
__attribute__((weak)) int MPI_Comm_create_keyval(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_create_keyval"); }
__attribute__((weak)) int MPI_Comm_delete_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_delete_attr"); }
__attribute__((weak)) int MPI_Comm_disconnect(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_disconnect"); }
__attribute__((weak)) int MPI_Comm_dup(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_dup"); }
__attribute__((weak)) int MPI_Comm_dup_with_info(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_dup_with_info"); }
__attribute__((weak)) int MPI_Comm_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_f2c"); }
__attribute__((weak)) int MPI_Comm_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_free"); }
__attribute__((weak)) int MPI_Comm_free_keyval(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_free_keyval"); }
__attribute__((weak)) int MPI_Comm_get_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_get_attr"); }
__attribute__((weak)) int MPI_Comm_get_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_get_errhandler"); }
__attribute__((weak)) int MPI_Comm_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_get_info"); }
__attribute__((weak)) int MPI_Comm_get_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_get_name"); }
__attribute__((weak)) int MPI_Comm_get_parent(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_get_parent"); }
__attribute__((weak)) int MPI_Comm_group(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_group"); }
__attribute__((weak)) int MPI_Comm_idup(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_idup"); }
__attribute__((weak)) int MPI_Comm_join(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_join"); }
__attribute__((weak)) int MPI_Comm_rank(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_rank"); }
__attribute__((weak)) int MPI_Comm_remote_group(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_remote_group"); }
__attribute__((weak)) int MPI_Comm_remote_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_remote_size"); }
__attribute__((weak)) int MPI_Comm_set_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_set_attr"); }
__attribute__((weak)) int MPI_Comm_set_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_set_errhandler"); }
__attribute__((weak)) int MPI_Comm_set_info(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_set_info"); }
__attribute__((weak)) int MPI_Comm_set_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_set_name"); }
__attribute__((weak)) int MPI_Comm_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_size"); }
__attribute__((weak)) int MPI_Comm_spawn(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_spawn"); }
__attribute__((weak)) int MPI_Comm_spawn_multiple(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_spawn_multiple"); }
__attribute__((weak)) int MPI_Comm_split(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_split"); }
__attribute__((weak)) int MPI_Comm_split_type(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_split_type"); }
__attribute__((weak)) int MPI_Comm_test_inter(void) { sim_fail(V_UNSUPPORTED, "MPI_Comm_test_inter"); }
__attribute__((weak)) int MPI_Compare_and_swap(void) { sim_fail(V_UNSUPPORTED, "MPI_Compare_and_swap"); }
__attribute__((weak)) int MPI_DUP_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_DUP_FN"); }
__attribute__((weak)) int MPI_Dims_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Dims_create"); }
__attribute__((weak)) int MPI_Dist_graph_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Dist_graph_create"); }
__attribute__((weak)) int MPI_Dist_graph_create_adjacent(void) { sim_fail(V_UNSUPPORTED, "MPI_Dist_graph_create_adjacent"); }
__attribute__((weak)) int MPI_Dist_graph_neighbors(void) { sim_fail(V_UNSUPPORTED, "MPI_Dist_graph_neighbors"); }
__attribute__((weak)) int MPI_Dist_graph_neighbors_count(void) { sim_fail(V_UNSUPPORTED, "MPI_Dist_graph_neighbors_count"); }
__attribute__((weak)) int MPI_Errhandler_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Errhandler_c2f"); }
__attribute__((weak)) int MPI_Errhandler_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Errhandler_create"); }
__attribute__((weak)) int MPI_Errhandler_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Errhandler_f2c"); }
__attribute__((weak)) int MPI_Errhandler_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Errhandler_free"); }
__attribute__((weak)) int MPI_Errhandler_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Errhandler_get"); }
__attribute__((weak)) int MPI_Errhandler_set(void) { sim_fail(V_UNSUPPORTED, "MPI_Errhandler_set"); }
__attribute__((weak)) int MPI_Error_class(void) { sim_fail(V_UNSUPPORTED, "MPI_Error_class"); }
__attribute__((weak)) int MPI_Error_string(void) { sim_fail(V_UNSUPPORTED, "MPI_Error_string"); }
__attribute__((weak)) int MPI_Exscan(void) { sim_fail(V_UNSUPPORTED, "MPI_Exscan"); }
__attribute__((weak)) int MPI_Fetch_and_op(void) { sim_fail(V_UNSUPPORTED, "MPI_Fetch_and_op"); }
__attribute__((weak)) int MPI_File_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_File_c2f"); }
__attribute__((weak)) int MPI_File_call_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_File_call_errhandler"); }
__attribute__((weak)) int MPI_File_close(void) { sim_fail(V_UNSUPPORTED, "MPI_File_close"); }
__attribute__((weak)) int MPI_File_create_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_File_create_errhandler"); }
__attribute__((weak)) int MPI_File_delete(void) { sim_fail(V_UNSUPPORTED, "MPI_File_delete"); }
__attribute__((weak)) int MPI_File_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_File_f2c"); }
__attribute__((weak)) int MPI_File_get_amode(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_amode"); }
__attribute__((weak)) int MPI_File_get_atomicity(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_atomicity"); }
__attribute__((weak)) int MPI_File_get_byte_offset(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_byte_offset"); }
__attribute__((weak)) int MPI_File_get_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_errhandler"); }
__attribute__((weak)) int MPI_File_get_group(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_group"); }
__attribute__((weak)) int MPI_File_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_info"); }
__attribute__((weak)) int MPI_File_get_position(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_position"); }
__attribute__((weak)) int MPI_File_get_position_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_position_shared"); }
__attribute__((weak)) int MPI_File_get_size(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_size"); }
__attribute__((weak)) int MPI_File_get_type_extent(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_type_extent"); }
__attribute__((weak)) int MPI_File_get_view(void) { sim_fail(V_UNSUPPORTED, "MPI_File_get_view"); }
__attribute__((weak)) int MPI_File_iread(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iread"); }
__attribute__((weak)) int MPI_File_iread_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iread_all"); }
__attribute__((weak)) int MPI_File_iread_at(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iread_at"); }
__attribute__((weak)) int MPI_File_iread_at_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iread_at_all"); }
__attribute__((weak)) int MPI_File_iread_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iread_shared"); }
__attribute__((weak)) int MPI_File_iwrite(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iwrite"); }
__attribute__((weak)) int MPI_File_iwrite_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iwrite_all"); }
__attribute__((weak)) int MPI_File_iwrite_at(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iwrite_at"); }
__attribute__((weak)) int MPI_File_iwrite_at_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iwrite_at_all"); }
__attribute__((weak)) int MPI_File_iwrite_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_File_iwrite_shared"); }
__attribute__((weak)) int MPI_File_open(void) { sim_fail(V_UNSUPPORTED, "MPI_File_open"); }
__attribute__((weak)) int MPI_File_preallocate(void) { sim_fail(V_UNSUPPORTED, "MPI_File_preallocate"); }
__attribute__((weak)) int MPI_File_read(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read"); }
__attribute__((weak)) int MPI_File_read_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_all"); }
__attribute__((weak)) int MPI_File_read_all_begin(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_all_begin"); }
__attribute__((weak)) int MPI_File_read_all_end(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_all_end"); }
__attribute__((weak)) int MPI_File_read_at(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_at"); }
__attribute__((weak)) int MPI_File_read_at_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_at_all"); }
__attribute__((weak)) int MPI_File_read_at_all_begin(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_at_all_begin"); }
__attribute__((weak)) int MPI_File_read_at_all_end(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_at_all_end"); }
__attribute__((weak)) int MPI_File_read_ordered(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_ordered"); }
__attribute__((weak)) int MPI_File_read_ordered_begin(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_ordered_begin"); }
__attribute__((weak)) int MPI_File_read_ordered_end(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_ordered_end"); }
__attribute__((weak)) int MPI_File_read_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_File_read_shared"); }
__attribute__((weak)) int MPI_File_seek(void) { sim_fail(V_UNSUPPORTED, "MPI_File_seek"); }
__attribute__((weak)) int MPI_File_seek_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_File_seek_shared"); }
__attribute__((weak)) int MPI_File_set_atomicity(void) { sim_fail(V_UNSUPPORTED, "MPI_File_set_atomicity"); }
__attribute__((weak)) int MPI_File_set_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_File_set_errhandler"); }
__attribute__((weak)) int MPI_File_set_info(void) { sim_fail(V_UNSUPPORTED, "MPI_File_set_info"); }
__attribute__((weak)) int MPI_File_set_size(void) { sim_fail(V_UNSUPPORTED, "MPI_File_set_size"); }
__attribute__((weak)) int MPI_File_set_view(void) { sim_fail(V_UNSUPPORTED, "MPI_File_set_view"); }
__attribute__((weak)) int MPI_File_sync(void) { sim_fail(V_UNSUPPORTED, "MPI_File_sync"); }
__attribute__((weak)) int MPI_File_write(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write"); }
__attribute__((weak)) int MPI_File_write_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_all"); }
__attribute__((weak)) int MPI_File_write_all_begin(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_all_begin"); }
__attribute__((weak)) int MPI_File_write_all_end(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_all_end"); }
__attribute__((weak)) int MPI_File_write_at(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_at"); }
__attribute__((weak)) int MPI_File_write_at_all(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_at_all"); }
__attribute__((weak)) int MPI_File_write_at_all_begin(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_at_all_begin"); }
__attribute__((weak)) int MPI_File_write_at_all_end(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_at_all_end"); }
__attribute__((weak)) int MPI_File_write_ordered(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_ordered"); }
__attribute__((weak)) int MPI_File_write_ordered_begin(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_ordered_begin"); }
__attribute__((weak)) int MPI_File_write_ordered_end(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_ordered_end"); }
__attribute__((weak)) int MPI_File_write_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_File_write_shared"); }
__attribute__((weak)) int MPI_Finalize(void) { sim_fail(V_UNSUPPORTED, "MPI_Finalize"); }
__attribute__((weak)) int MPI_Finalized(void) { sim_fail(V_UNSUPPORTED, "MPI_Finalized"); }
__attribute__((weak)) int MPI_Free_mem(void) { sim_fail(V_UNSUPPORTED, "MPI_Free_mem"); }
__attribute__((weak)) int MPI_Gather(void) { sim_fail(V_UNSUPPORTED, "MPI_Gather"); }
__attribute__((weak)) int MPI_Gatherv(void) { sim_fail(V_UNSUPPORTED, "MPI_Gatherv"); }
__attribute__((weak)) int MPI_Get(void) { sim_fail(V_UNSUPPORTED, "MPI_Get"); }
__attribute__((weak)) int MPI_Get_accumulate(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_accumulate"); }
__attribute__((weak)) int MPI_Get_address(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_address"); }
__attribute__((weak)) int MPI_Get_count(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_count"); }
__attribute__((weak)) int MPI_Get_elements(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_elements"); }
__attribute__((weak)) int MPI_Get_elements_x(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_elements_x"); }
__attribute__((weak)) int MPI_Get_library_version(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_library_version"); }
__attribute__((weak)) int MPI_Get_processor_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_processor_name"); }
__attribute__((weak)) int MPI_Get_version(void) { sim_fail(V_UNSUPPORTED, "MPI_Get_version"); }
__attribute__((weak)) int MPI_Graph_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Graph_create"); }
__attribute__((weak)) int MPI_Graph_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Graph_get"); }
__attribute__((weak)) int MPI_Graph_map(void) { sim_fail(V_UNSUPPORTED, "MPI_Graph_map"); }
__attribute__((weak)) int MPI_Graph_neighbors(void) { sim_fail(V_UNSUPPORTED, "MPI_Graph_neighbors"); }
__attribute__((weak)) int MPI_Graph_neighbors_count(void) { sim_fail(V_UNSUPPORTED, "MPI_Graph_neighbors_count"); }
__attribute__((weak)) int MPI_Graphdims_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Graphdims_get"); }
__attribute__((weak)) int MPI_Grequest_complete(void) { sim_fail(V_UNSUPPORTED, "MPI_Grequest_complete"); }
__attribute__((weak)) int MPI_Grequest_start(void) { sim_fail(V_UNSUPPORTED, "MPI_Grequest_start"); }
__attribute__((weak)) int MPI_Group_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_c2f"); }
__attribute__((weak)) int MPI_Group_compare(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_compare"); }
__attribute__((weak)) int MPI_Group_difference(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_difference"); }
__attribute__((weak)) int MPI_Group_excl(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_excl"); }
__attribute__((weak)) int MPI_Group_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_f2c"); }
__attribute__((weak)) int MPI_Group_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_free"); }
__attribute__((weak)) int MPI_Group_incl(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_incl"); }
__attribute__((weak)) int MPI_Group_intersection(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_intersection"); }
__attribute__((weak)) int MPI_Group_range_excl(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_range_excl"); }
__attribute__((weak)) int MPI_Group_range_incl(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_range_incl"); }
__attribute__((weak)) int MPI_Group_rank(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_rank"); }
__attribute__((weak)) int MPI_Group_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_size"); }
__attribute__((weak)) int MPI_Group_translate_ranks(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_translate_ranks"); }
__attribute__((weak)) int MPI_Group_union(void) { sim_fail(V_UNSUPPORTED, "MPI_Group_union"); }
__attribute__((weak)) int MPI_Iallgather(void) { sim_fail(V_UNSUPPORTED, "MPI_Iallgather"); }
__attribute__((weak)) int MPI_Iallgatherv(void) { sim_fail(V_UNSUPPORTED, "MPI_Iallgatherv"); }
__attribute__((weak)) int MPI_Iallreduce(void) { sim_fail(V_UNSUPPORTED, "MPI_Iallreduce"); }
__attribute__((weak)) int MPI_Ialltoall(void) { sim_fail(V_UNSUPPORTED, "MPI_Ialltoall"); }
__attribute__((weak)) int MPI_Ialltoallv(void) { sim_fail(V_UNSUPPORTED, "MPI_Ialltoallv"); }
__attribute__((weak)) int MPI_Ialltoallw(void) { sim_fail(V_UNSUPPORTED, "MPI_Ialltoallw"); }
__attribute__((weak)) int MPI_Ibarrier(void) { sim_fail(V_UNSUPPORTED, "MPI_Ibarrier"); }
__attribute__((weak)) int MPI_Ibcast(void) { sim_fail(V_UNSUPPORTED, "MPI_Ibcast"); }
__attribute__((weak)) int MPI_Ibsend(void) { sim_fail(V_UNSUPPORTED, "MPI_Ibsend"); }
__attribute__((weak)) int MPI_Iexscan(void) { sim_fail(V_UNSUPPORTED, "MPI_Iexscan"); }
__attribute__((weak)) int MPI_Igather(void) { sim_fail(V_UNSUPPORTED, "MPI_Igather"); }
__attribute__((weak)) int MPI_Igatherv(void) { sim_fail(V_UNSUPPORTED, "MPI_Igatherv"); }
__attribute__((weak)) int MPI_Improbe(void) { sim_fail(V_UNSUPPORTED, "MPI_Improbe"); }
__attribute__((weak)) int MPI_Imrecv(void) { sim_fail(V_UNSUPPORTED, "MPI_Imrecv"); }
__attribute__((weak)) int MPI_Ineighbor_allgather(void) { sim_fail(V_UNSUPPORTED, "MPI_Ineighbor_allgather"); }
__attribute__((weak)) int MPI_Ineighbor_allgatherv(void) { sim_fail(V_UNSUPPORTED, "MPI_Ineighbor_allgatherv"); }
__attribute__((weak)) int MPI_Ineighbor_alltoall(void) { sim_fail(V_UNSUPPORTED, "MPI_Ineighbor_alltoall"); }
__attribute__((weak)) int MPI_Ineighbor_alltoallv(void) { sim_fail(V_UNSUPPORTED, "MPI_Ineighbor_alltoallv"); }
__attribute__((weak)) int MPI_Ineighbor_alltoallw(void) { sim_fail(V_UNSUPPORTED, "MPI_Ineighbor_alltoallw"); }
__attribute__((weak)) int MPI_Info_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_c2f"); }
__attribute__((weak)) int MPI_Info_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_create"); }
__attribute__((weak)) int MPI_Info_delete(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_delete"); }
__attribute__((weak)) int MPI_Info_dup(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_dup"); }
__attribute__((weak)) int MPI_Info_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_f2c"); }
__attribute__((weak)) int MPI_Info_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_free"); }
__attribute__((weak)) int MPI_Info_get(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_get"); }
__attribute__((weak)) int MPI_Info_get_nkeys(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_get_nkeys"); }
__attribute__((weak)) int MPI_Info_get_nthkey(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_get_nthkey"); }
__attribute__((weak)) int MPI_Info_get_valuelen(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_get_valuelen"); }
__attribute__((weak)) int MPI_Info_set(void) { sim_fail(V_UNSUPPORTED, "MPI_Info_set"); }
__attribute__((weak)) int MPI_Init(void) { sim_fail(V_UNSUPPORTED, "MPI_Init"); }
__attribute__((weak)) int MPI_Init_thread(void) { sim_fail(V_UNSUPPORTED, "MPI_Init_thread"); }
__attribute__((weak)) int MPI_Initialized(void) { sim_fail(V_UNSUPPORTED, "MPI_Initialized"); }
__attribute__((weak)) int MPI_Intercomm_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Intercomm_create"); }
__attribute__((weak)) int MPI_Intercomm_merge(void) { sim_fail(V_UNSUPPORTED, "MPI_Intercomm_merge"); }
__attribute__((weak)) int MPI_Iprobe(void) { sim_fail(V_UNSUPPORTED, "MPI_Iprobe"); }
__attribute__((weak)) int MPI_Irecv(void) { sim_fail(V_UNSUPPORTED, "MPI_Irecv"); }
__attribute__((weak)) int MPI_Ireduce(void) { sim_fail(V_UNSUPPORTED, "MPI_Ireduce"); }
__attribute__((weak)) int MPI_Ireduce_scatter(void) { sim_fail(V_UNSUPPORTED, "MPI_Ireduce_scatter"); }
__attribute__((weak)) int MPI_Ireduce_scatter_block(void) { sim_fail(V_UNSUPPORTED, "MPI_Ireduce_scatter_block"); }
__attribute__((weak)) int MPI_Irsend(void) { sim_fail(V_UNSUPPORTED, "MPI_Irsend"); }
__attribute__((weak)) int MPI_Is_thread_main(void) { sim_fail(V_UNSUPPORTED, "MPI_Is_thread_main"); }
__attribute__((weak)) int MPI_Iscan(void) { sim_fail(V_UNSUPPORTED, "MPI_Iscan"); }
__attribute__((weak)) int MPI_Iscatter(void) { sim_fail(V_UNSUPPORTED, "MPI_Iscatter"); }
__attribute__((weak)) int MPI_Iscatterv(void) { sim_fail(V_UNSUPPORTED, "MPI_Iscatterv"); }
__attribute__((weak)) int MPI_Isend(void) { sim_fail(V_UNSUPPORTED, "MPI_Isend"); }
__attribute__((weak)) int MPI_Issend(void) { sim_fail(V_UNSUPPORTED, "MPI_Issend"); }
__attribute__((weak)) int MPI_Keyval_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Keyval_create"); }
__attribute__((weak)) int MPI_Keyval_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Keyval_free"); }
__attribute__((weak)) int MPI_Lookup_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Lookup_name"); }
__attribute__((weak)) int MPI_Message_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Message_c2f"); }
__attribute__((weak)) int MPI_Message_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Message_f2c"); }
__attribute__((weak)) int MPI_Mprobe(void) { sim_fail(V_UNSUPPORTED, "MPI_Mprobe"); }
__attribute__((weak)) int MPI_Mrecv(void) { sim_fail(V_UNSUPPORTED, "MPI_Mrecv"); }
__attribute__((weak)) int MPI_NULL_COPY_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_NULL_COPY_FN"); }
__attribute__((weak)) int MPI_NULL_DELETE_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_NULL_DELETE_FN"); }
__attribute__((weak)) int MPI_Neighbor_allgather(void) { sim_fail(V_UNSUPPORTED, "MPI_Neighbor_allgather"); }
__attribute__((weak)) int MPI_Neighbor_allgatherv(void) { sim_fail(V_UNSUPPORTED, "MPI_Neighbor_allgatherv"); }
__attribute__((weak)) int MPI_Neighbor_alltoall(void) { sim_fail(V_UNSUPPORTED, "MPI_Neighbor_alltoall"); }
__attribute__((weak)) int MPI_Neighbor_alltoallv(void) { sim_fail(V_UNSUPPORTED, "MPI_Neighbor_alltoallv"); }
__attribute__((weak)) int MPI_Neighbor_alltoallw(void) { sim_fail(V_UNSUPPORTED, "MPI_Neighbor_alltoallw"); }
__attribute__((weak)) int MPI_Op_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Op_c2f"); }
__attribute__((weak)) int MPI_Op_commutative(void) { sim_fail(V_UNSUPPORTED, "MPI_Op_commutative"); }
__attribute__((weak)) int MPI_Op_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Op_create"); }
__attribute__((weak)) int MPI_Op_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Op_f2c"); }
__attribute__((weak)) int MPI_Op_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Op_free"); }
__attribute__((weak)) int MPI_Open_port(void) { sim_fail(V_UNSUPPORTED, "MPI_Open_port"); }
__attribute__((weak)) int MPI_Pack(void) { sim_fail(V_UNSUPPORTED, "MPI_Pack"); }
__attribute__((weak)) int MPI_Pack_external(void) { sim_fail(V_UNSUPPORTED, "MPI_Pack_external"); }
__attribute__((weak)) int MPI_Pack_external_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Pack_external_size"); }
__attribute__((weak)) int MPI_Pack_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Pack_size"); }
__attribute__((weak)) int MPI_Pcontrol(void) { sim_fail(V_UNSUPPORTED, "MPI_Pcontrol"); }
__attribute__((weak)) int MPI_Probe(void) { sim_fail(V_UNSUPPORTED, "MPI_Probe"); }
__attribute__((weak)) int MPI_Publish_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Publish_name"); }
__attribute__((weak)) int MPI_Put(void) { sim_fail(V_UNSUPPORTED, "MPI_Put"); }
__attribute__((weak)) int MPI_Query_thread(void) { sim_fail(V_UNSUPPORTED, "MPI_Query_thread"); }
__attribute__((weak)) int MPI_Raccumulate(void) { sim_fail(V_UNSUPPORTED, "MPI_Raccumulate"); }
__attribute__((weak)) int MPI_Recv(void) { sim_fail(V_UNSUPPORTED, "MPI_Recv"); }
__attribute__((weak)) int MPI_Recv_init(void) { sim_fail(V_UNSUPPORTED, "MPI_Recv_init"); }
__attribute__((weak)) int MPI_Reduce(void) { sim_fail(V_UNSUPPORTED, "MPI_Reduce"); }
__attribute__((weak)) int MPI_Reduce_local(void) { sim_fail(V_UNSUPPORTED, "MPI_Reduce_local"); }
__attribute__((weak)) int MPI_Reduce_scatter(void) { sim_fail(V_UNSUPPORTED, "MPI_Reduce_scatter"); }
__attribute__((weak)) int MPI_Reduce_scatter_block(void) { sim_fail(V_UNSUPPORTED, "MPI_Reduce_scatter_block"); }
__attribute__((weak)) int MPI_Register_datarep(void) { sim_fail(V_UNSUPPORTED, "MPI_Register_datarep"); }
__attribute__((weak)) int MPI_Request_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Request_c2f"); }
__attribute__((weak)) int MPI_Request_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Request_f2c"); }
__attribute__((weak)) int MPI_Request_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Request_free"); }
__attribute__((weak)) int MPI_Request_get_status(void) { sim_fail(V_UNSUPPORTED, "MPI_Request_get_status"); }
__attribute__((weak)) int MPI_Rget(void) { sim_fail(V_UNSUPPORTED, "MPI_Rget"); }
__attribute__((weak)) int MPI_Rget_accumulate(void) { sim_fail(V_UNSUPPORTED, "MPI_Rget_accumulate"); }
__attribute__((weak)) int MPI_Rput(void) { sim_fail(V_UNSUPPORTED, "MPI_Rput"); }
__attribute__((weak)) int MPI_Rsend(void) { sim_fail(V_UNSUPPORTED, "MPI_Rsend"); }
__attribute__((weak)) int MPI_Rsend_init(void) { sim_fail(V_UNSUPPORTED, "MPI_Rsend_init"); }
__attribute__((weak)) int MPI_Scan(void) { sim_fail(V_UNSUPPORTED, "MPI_Scan"); }
__attribute__((weak)) int MPI_Scatter(void) { sim_fail(V_UNSUPPORTED, "MPI_Scatter"); }
__attribute__((weak)) int MPI_Scatterv(void) { sim_fail(V_UNSUPPORTED, "MPI_Scatterv"); }
__attribute__((weak)) int MPI_Send(void) { sim_fail(V_UNSUPPORTED, "MPI_Send"); }
__attribute__((weak)) int MPI_Send_init(void) { sim_fail(V_UNSUPPORTED, "MPI_Send_init"); }
__attribute__((weak)) int MPI_Sendrecv(void) { sim_fail(V_UNSUPPORTED, "MPI_Sendrecv"); }
__attribute__((weak)) int MPI_Sendrecv_replace(void) { sim_fail(V_UNSUPPORTED, "MPI_Sendrecv_replace"); }
__attribute__((weak)) int MPI_Ssend(void) { sim_fail(V_UNSUPPORTED, "MPI_Ssend"); }
__attribute__((weak)) int MPI_Ssend_init(void) { sim_fail(V_UNSUPPORTED, "MPI_Ssend_init"); }
__attribute__((weak)) int MPI_Start(void) { sim_fail(V_UNSUPPORTED, "MPI_Start"); }
__attribute__((weak)) int MPI_Startall(void) { sim_fail(V_UNSUPPORTED, "MPI_Startall"); }
__attribute__((weak)) int MPI_Status_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Status_c2f"); }
__attribute__((weak)) int MPI_Status_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Status_f2c"); }
__attribute__((weak)) int MPI_Status_set_cancelled(void) { sim_fail(V_UNSUPPORTED, "MPI_Status_set_cancelled"); }
__attribute__((weak)) int MPI_Status_set_elements(void) { sim_fail(V_UNSUPPORTED, "MPI_Status_set_elements"); }
__attribute__((weak)) int MPI_Status_set_elements_x(void) { sim_fail(V_UNSUPPORTED, "MPI_Status_set_elements_x"); }
__attribute__((weak)) int MPI_TYPE_DUP_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_TYPE_DUP_FN"); }
__attribute__((weak)) int MPI_TYPE_NULL_COPY_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_TYPE_NULL_COPY_FN"); }
__attribute__((weak)) int MPI_TYPE_NULL_DELETE_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_TYPE_NULL_DELETE_FN"); }
__attribute__((weak)) int MPI_T_category_changed(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_changed"); }
__attribute__((weak)) int MPI_T_category_get_categories(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_get_categories"); }
__attribute__((weak)) int MPI_T_category_get_cvars(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_get_cvars"); }
__attribute__((weak)) int MPI_T_category_get_index(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_get_index"); }
__attribute__((weak)) int MPI_T_category_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_get_info"); }
__attribute__((weak)) int MPI_T_category_get_num(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_get_num"); }
__attribute__((weak)) int MPI_T_category_get_pvars(void) { sim_fail(V_UNSUPPORTED, "MPI_T_category_get_pvars"); }
__attribute__((weak)) int MPI_T_cvar_get_index(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_get_index"); }
__attribute__((weak)) int MPI_T_cvar_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_get_info"); }
__attribute__((weak)) int MPI_T_cvar_get_num(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_get_num"); }
__attribute__((weak)) int MPI_T_cvar_handle_alloc(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_handle_alloc"); }
__attribute__((weak)) int MPI_T_cvar_handle_free(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_handle_free"); }
__attribute__((weak)) int MPI_T_cvar_read(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_read"); }
__attribute__((weak)) int MPI_T_cvar_write(void) { sim_fail(V_UNSUPPORTED, "MPI_T_cvar_write"); }
__attribute__((weak)) int MPI_T_enum_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_T_enum_get_info"); }
__attribute__((weak)) int MPI_T_enum_get_item(void) { sim_fail(V_UNSUPPORTED, "MPI_T_enum_get_item"); }
__attribute__((weak)) int MPI_T_finalize(void) { sim_fail(V_UNSUPPORTED, "MPI_T_finalize"); }
__attribute__((weak)) int MPI_T_init_thread(void) { sim_fail(V_UNSUPPORTED, "MPI_T_init_thread"); }
__attribute__((weak)) int MPI_T_pvar_get_index(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_get_index"); }
__attribute__((weak)) int MPI_T_pvar_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_get_info"); }
__attribute__((weak)) int MPI_T_pvar_get_num(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_get_num"); }
__attribute__((weak)) int MPI_T_pvar_handle_alloc(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_handle_alloc"); }
__attribute__((weak)) int MPI_T_pvar_handle_free(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_handle_free"); }
__attribute__((weak)) int MPI_T_pvar_read(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_read"); }
__attribute__((weak)) int MPI_T_pvar_readreset(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_readreset"); }
__attribute__((weak)) int MPI_T_pvar_reset(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_reset"); }
__attribute__((weak)) int MPI_T_pvar_session_create(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_session_create"); }
__attribute__((weak)) int MPI_T_pvar_session_free(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_session_free"); }
__attribute__((weak)) int MPI_T_pvar_start(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_start"); }
__attribute__((weak)) int MPI_T_pvar_stop(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_stop"); }
__attribute__((weak)) int MPI_T_pvar_write(void) { sim_fail(V_UNSUPPORTED, "MPI_T_pvar_write"); }
__attribute__((weak)) int MPI_Test(void) { sim_fail(V_UNSUPPORTED, "MPI_Test"); }
__attribute__((weak)) int MPI_Test_cancelled(void) { sim_fail(V_UNSUPPORTED, "MPI_Test_cancelled"); }
__attribute__((weak)) int MPI_Testall(void) { sim_fail(V_UNSUPPORTED, "MPI_Testall"); }
__attribute__((weak)) int MPI_Testany(void) { sim_fail(V_UNSUPPORTED, "MPI_Testany"); }
__attribute__((weak)) int MPI_Testsome(void) { sim_fail(V_UNSUPPORTED, "MPI_Testsome"); }
__attribute__((weak)) int MPI_Topo_test(void) { sim_fail(V_UNSUPPORTED, "MPI_Topo_test"); }
__attribute__((weak)) int MPI_Type_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_c2f"); }
__attribute__((weak)) int MPI_Type_commit(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_commit"); }
__attribute__((weak)) int MPI_Type_contiguous(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_contiguous"); }
__attribute__((weak)) int MPI_Type_create_darray(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_darray"); }
__attribute__((weak)) int MPI_Type_create_f90_complex(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_f90_complex"); }
__attribute__((weak)) int MPI_Type_create_f90_integer(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_f90_integer"); }
__attribute__((weak)) int MPI_Type_create_f90_real(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_f90_real"); }
__attribute__((weak)) int MPI_Type_create_hindexed(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_hindexed"); }
__attribute__((weak)) int MPI_Type_create_hindexed_block(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_hindexed_block"); }
__attribute__((weak)) int MPI_Type_create_hvector(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_hvector"); }
__attribute__((weak)) int MPI_Type_create_indexed_block(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_indexed_block"); }
__attribute__((weak)) int MPI_Type_create_keyval(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_keyval"); }
__attribute__((weak)) int MPI_Type_create_resized(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_resized"); }
__attribute__((weak)) int MPI_Type_create_struct(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_struct"); }
__attribute__((weak)) int MPI_Type_create_subarray(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_create_subarray"); }
__attribute__((weak)) int MPI_Type_delete_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_delete_attr"); }
__attribute__((weak)) int MPI_Type_dup(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_dup"); }
__attribute__((weak)) int MPI_Type_extent(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_extent"); }
__attribute__((weak)) int MPI_Type_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_f2c"); }
__attribute__((weak)) int MPI_Type_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_free"); }
__attribute__((weak)) int MPI_Type_free_keyval(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_free_keyval"); }
__attribute__((weak)) int MPI_Type_get_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_attr"); }
__attribute__((weak)) int MPI_Type_get_contents(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_contents"); }
__attribute__((weak)) int MPI_Type_get_envelope(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_envelope"); }
__attribute__((weak)) int MPI_Type_get_extent(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_extent"); }
__attribute__((weak)) int MPI_Type_get_extent_x(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_extent_x"); }
__attribute__((weak)) int MPI_Type_get_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_name"); }
__attribute__((weak)) int MPI_Type_get_true_extent(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_true_extent"); }
__attribute__((weak)) int MPI_Type_get_true_extent_x(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_get_true_extent_x"); }
__attribute__((weak)) int MPI_Type_hindexed(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_hindexed"); }
__attribute__((weak)) int MPI_Type_hvector(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_hvector"); }
__attribute__((weak)) int MPI_Type_indexed(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_indexed"); }
__attribute__((weak)) int MPI_Type_lb(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_lb"); }
__attribute__((weak)) int MPI_Type_match_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_match_size"); }
__attribute__((weak)) int MPI_Type_set_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_set_attr"); }
__attribute__((weak)) int MPI_Type_set_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_set_name"); }
__attribute__((weak)) int MPI_Type_size(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_size"); }
__attribute__((weak)) int MPI_Type_size_x(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_size_x"); }
__attribute__((weak)) int MPI_Type_struct(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_struct"); }
__attribute__((weak)) int MPI_Type_ub(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_ub"); }
__attribute__((weak)) int MPI_Type_vector(void) { sim_fail(V_UNSUPPORTED, "MPI_Type_vector"); }
__attribute__((weak)) int MPI_Unpack(void) { sim_fail(V_UNSUPPORTED, "MPI_Unpack"); }
__attribute__((weak)) int MPI_Unpack_external(void) { sim_fail(V_UNSUPPORTED, "MPI_Unpack_external"); }
__attribute__((weak)) int MPI_Unpublish_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Unpublish_name"); }
__attribute__((weak)) int MPI_WIN_DUP_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_WIN_DUP_FN"); }
__attribute__((weak)) int MPI_WIN_NULL_COPY_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_WIN_NULL_COPY_FN"); }
__attribute__((weak)) int MPI_WIN_NULL_DELETE_FN(void) { sim_fail(V_UNSUPPORTED, "MPI_WIN_NULL_DELETE_FN"); }
__attribute__((weak)) int MPI_WTICK_F90(void) { sim_fail(V_UNSUPPORTED, "MPI_WTICK_F90"); }
__attribute__((weak)) int MPI_WTIME_F90(void) { sim_fail(V_UNSUPPORTED, "MPI_WTIME_F90"); }
__attribute__((weak)) int MPI_Wait(void) { sim_fail(V_UNSUPPORTED, "MPI_Wait"); }
__attribute__((weak)) int MPI_Waitall(void) { sim_fail(V_UNSUPPORTED, "MPI_Waitall"); }
__attribute__((weak)) int MPI_Waitany(void) { sim_fail(V_UNSUPPORTED, "MPI_Waitany"); }
__attribute__((weak)) int MPI_Waitsome(void) { sim_fail(V_UNSUPPORTED, "MPI_Waitsome"); }
__attribute__((weak)) int MPI_Win_allocate(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_allocate"); }
__attribute__((weak)) int MPI_Win_allocate_shared(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_allocate_shared"); }
__attribute__((weak)) int MPI_Win_attach(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_attach"); }
__attribute__((weak)) int MPI_Win_c2f(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_c2f"); }
__attribute__((weak)) int MPI_Win_call_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_call_errhandler"); }
__attribute__((weak)) int MPI_Win_complete(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_complete"); }
__attribute__((weak)) int MPI_Win_create(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_create"); }
__attribute__((weak)) int MPI_Win_create_dynamic(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_create_dynamic"); }
__attribute__((weak)) int MPI_Win_create_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_create_errhandler"); }
__attribute__((weak)) int MPI_Win_create_keyval(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_create_keyval"); }
__attribute__((weak)) int MPI_Win_delete_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_delete_attr"); }
__attribute__((weak)) int MPI_Win_detach(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_detach"); }
__attribute__((weak)) int MPI_Win_f2c(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_f2c"); }
__attribute__((weak)) int MPI_Win_fence(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_fence"); }
__attribute__((weak)) int MPI_Win_flush(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_flush"); }
__attribute__((weak)) int MPI_Win_flush_all(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_flush_all"); }
__attribute__((weak)) int MPI_Win_flush_local(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_flush_local"); }
__attribute__((weak)) int MPI_Win_flush_local_all(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_flush_local_all"); }
__attribute__((weak)) int MPI_Win_free(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_free"); }
__attribute__((weak)) int MPI_Win_free_keyval(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_free_keyval"); }
__attribute__((weak)) int MPI_Win_get_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_get_attr"); }
__attribute__((weak)) int MPI_Win_get_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_get_errhandler"); }
__attribute__((weak)) int MPI_Win_get_group(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_get_group"); }
__attribute__((weak)) int MPI_Win_get_info(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_get_info"); }
__attribute__((weak)) int MPI_Win_get_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_get_name"); }
__attribute__((weak)) int MPI_Win_lock(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_lock"); }
__attribute__((weak)) int MPI_Win_lock_all(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_lock_all"); }
__attribute__((weak)) int MPI_Win_post(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_post"); }
__attribute__((weak)) int MPI_Win_set_attr(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_set_attr"); }
__attribute__((weak)) int MPI_Win_set_errhandler(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_set_errhandler"); }
__attribute__((weak)) int MPI_Win_set_info(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_set_info"); }
__attribute__((weak)) int MPI_Win_set_name(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_set_name"); }
__attribute__((weak)) int MPI_Win_shared_query(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_shared_query"); }
__attribute__((weak)) int MPI_Win_start(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_start"); }
__attribute__((weak)) int MPI_Win_sync(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_sync"); }
__attribute__((weak)) int MPI_Win_test(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_test"); }
__attribute__((weak)) int MPI_Win_unlock(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_unlock"); }
__attribute__((weak)) int MPI_Win_unlock_all(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_unlock_all"); }
__attribute__((weak)) int MPI_Win_wait(void) { sim_fail(V_UNSUPPORTED, "MPI_Win_wait"); }
__attribute__((weak)) int MPI_Wtick(void) { sim_fail(V_UNSUPPORTED, "MPI_Wtick"); }
__attribute__((weak)) int MPI_Wtime(void) { sim_fail(V_UNSUPPORTED, "MPI_Wtime"); }
char ompi_message_no_proc[1024] __attribute__((aligned(64)));
char ompi_message_null[1024] __attribute__((aligned(64)));
char ompi_mpi_2cplex[1024] __attribute__((aligned(64)));
char ompi_mpi_2dblcplex[1024] __attribute__((aligned(64)));
char ompi_mpi_2dblprec[1024] __attribute__((aligned(64)));
char ompi_mpi_2int[1024] __attribute__((aligned(64)));
char ompi_mpi_2integer[1024] __attribute__((aligned(64)));
char ompi_mpi_2real[1024] __attribute__((aligned(64)));
char ompi_mpi_aint[1024] __attribute__((aligned(64)));
char ompi_mpi_byte[1024] __attribute__((aligned(64)));
char ompi_mpi_c_bool[1024] __attribute__((aligned(64)));
char ompi_mpi_c_complex[1024] __attribute__((aligned(64)));
char ompi_mpi_c_double_complex[1024] __attribute__((aligned(64)));
char ompi_mpi_c_float_complex[1024] __attribute__((aligned(64)));
char ompi_mpi_c_long_double_complex[1024] __attribute__((aligned(64)));
char ompi_mpi_char[1024] __attribute__((aligned(64)));
char ompi_mpi_character[1024] __attribute__((aligned(64)));
char ompi_mpi_comm_null[1024] __attribute__((aligned(64)));
char ompi_mpi_comm_parent[1024] __attribute__((aligned(64)));
char ompi_mpi_comm_self[1024] __attribute__((aligned(64)));
char ompi_mpi_comm_world[1024] __attribute__((aligned(64)));
char ompi_mpi_communicators[1024] __attribute__((aligned(64)));
char ompi_mpi_complex16[1024] __attribute__((aligned(64)));
char ompi_mpi_complex32[1024] __attribute__((aligned(64)));
char ompi_mpi_complex8[1024] __attribute__((aligned(64)));
char ompi_mpi_count[1024] __attribute__((aligned(64)));
char ompi_mpi_cplex[1024] __attribute__((aligned(64)));
char ompi_mpi_cxx_bool[1024] __attribute__((aligned(64)));
char ompi_mpi_cxx_cplex[1024] __attribute__((aligned(64)));
char ompi_mpi_cxx_dblcplex[1024] __attribute__((aligned(64)));
char ompi_mpi_cxx_ldblcplex[1024] __attribute__((aligned(64)));
char ompi_mpi_datatype_null[1024] __attribute__((aligned(64)));
char ompi_mpi_dblcplex[1024] __attribute__((aligned(64)));
char ompi_mpi_dblprec[1024] __attribute__((aligned(64)));
char ompi_mpi_double[1024] __attribute__((aligned(64)));
char ompi_mpi_double_int[1024] __attribute__((aligned(64)));
char ompi_mpi_dynamics_enabled[1024] __attribute__((aligned(64)));
char ompi_mpi_errcode_lastpredefined[1024] __attribute__((aligned(64)));
char ompi_mpi_errcode_lastused[1024] __attribute__((aligned(64)));
char ompi_mpi_errcode_t_class[1024] __attribute__((aligned(64)));
char ompi_mpi_errcodes[1024] __attribute__((aligned(64)));
char ompi_mpi_errhandler_null[1024] __attribute__((aligned(64)));
char ompi_mpi_errors_are_fatal[1024] __attribute__((aligned(64)));
char ompi_mpi_errors_return[1024] __attribute__((aligned(64)));
char ompi_mpi_errors_throw_exceptions[1024] __attribute__((aligned(64)));
char ompi_mpi_event_tick_rate[1024] __attribute__((aligned(64)));
char ompi_mpi_external32_convertor[1024] __attribute__((aligned(64)));
char ompi_mpi_f90_complex_hashtable[1024] __attribute__((aligned(64)));
char ompi_mpi_f90_integer_hashtable[1024] __attribute__((aligned(64)));
char ompi_mpi_f90_real_hashtable[1024] __attribute__((aligned(64)));
char ompi_mpi_file_bootstrap_mutex[1024] __attribute__((aligned(64)));
char ompi_mpi_file_null[1024] __attribute__((aligned(64)));
char ompi_mpi_float[1024] __attribute__((aligned(64)));
char ompi_mpi_float_int[1024] __attribute__((aligned(64)));
char ompi_mpi_group_empty[1024] __attribute__((aligned(64)));
char ompi_mpi_group_null[1024] __attribute__((aligned(64)));
char ompi_mpi_have_sparse_group_storage[1024] __attribute__((aligned(64)));
char ompi_mpi_info_env[1024] __attribute__((aligned(64)));
char ompi_mpi_info_null[1024] __attribute__((aligned(64)));
char ompi_mpi_int[1024] __attribute__((aligned(64)));
char ompi_mpi_int16_t[1024] __attribute__((aligned(64)));
char ompi_mpi_int32_t[1024] __attribute__((aligned(64)));
char ompi_mpi_int64_t[1024] __attribute__((aligned(64)));
char ompi_mpi_int8_t[1024] __attribute__((aligned(64)));
char ompi_mpi_integer[1024] __attribute__((aligned(64)));
char ompi_mpi_integer1[1024] __attribute__((aligned(64)));
char ompi_mpi_integer16[1024] __attribute__((aligned(64)));
char ompi_mpi_integer2[1024] __attribute__((aligned(64)));
char ompi_mpi_integer4[1024] __attribute__((aligned(64)));
char ompi_mpi_integer8[1024] __attribute__((aligned(64)));
char ompi_mpi_keep_fqdn_hostnames[1024] __attribute__((aligned(64)));
char ompi_mpi_lb[1024] __attribute__((aligned(64)));
char ompi_mpi_ldblcplex[1024] __attribute__((aligned(64)));
char ompi_mpi_local_convertor[1024] __attribute__((aligned(64)));
char ompi_mpi_logical[1024] __attribute__((aligned(64)));
char ompi_mpi_logical1[1024] __attribute__((aligned(64)));
char ompi_mpi_logical2[1024] __attribute__((aligned(64)));
char ompi_mpi_logical4[1024] __attribute__((aligned(64)));
char ompi_mpi_logical8[1024] __attribute__((aligned(64)));
char ompi_mpi_long[1024] __attribute__((aligned(64)));
char ompi_mpi_long_double[1024] __attribute__((aligned(64)));
char ompi_mpi_long_int[1024] __attribute__((aligned(64)));
char ompi_mpi_long_long_int[1024] __attribute__((aligned(64)));
char ompi_mpi_longdbl_int[1024] __attribute__((aligned(64)));
char ompi_mpi_main_thread[1024] __attribute__((aligned(64)));
char ompi_mpi_offset[1024] __attribute__((aligned(64)));
char ompi_mpi_ompio_bootstrap_mutex[1024] __attribute__((aligned(64)));
char ompi_mpi_op_band[1024] __attribute__((aligned(64)));
char ompi_mpi_op_bor[1024] __attribute__((aligned(64)));
char ompi_mpi_op_bxor[1024] __attribute__((aligned(64)));
char ompi_mpi_op_land[1024] __attribute__((aligned(64)));
char ompi_mpi_op_lor[1024] __attribute__((aligned(64)));
char ompi_mpi_op_lxor[1024] __attribute__((aligned(64)));
char ompi_mpi_op_max[1024] __attribute__((aligned(64)));
char ompi_mpi_op_maxloc[1024] __attribute__((aligned(64)));
char ompi_mpi_op_min[1024] __attribute__((aligned(64)));
char ompi_mpi_op_minloc[1024] __attribute__((aligned(64)));
char ompi_mpi_op_no_op[1024] __attribute__((aligned(64)));
char ompi_mpi_op_null[1024] __attribute__((aligned(64)));
char ompi_mpi_op_prod[1024] __attribute__((aligned(64)));
char ompi_mpi_op_replace[1024] __attribute__((aligned(64)));
char ompi_mpi_op_sum[1024] __attribute__((aligned(64)));
char ompi_mpi_packed[1024] __attribute__((aligned(64)));
char ompi_mpi_param_check[1024] __attribute__((aligned(64)));
char ompi_mpi_preconnect_mpi[1024] __attribute__((aligned(64)));
char ompi_mpi_real[1024] __attribute__((aligned(64)));
char ompi_mpi_real16[1024] __attribute__((aligned(64)));
char ompi_mpi_real2[1024] __attribute__((aligned(64)));
char ompi_mpi_real4[1024] __attribute__((aligned(64)));
char ompi_mpi_real8[1024] __attribute__((aligned(64)));
char ompi_mpi_short[1024] __attribute__((aligned(64)));
char ompi_mpi_short_int[1024] __attribute__((aligned(64)));
char ompi_mpi_show_mca_params[1024] __attribute__((aligned(64)));
char ompi_mpi_show_mca_params_file[1024] __attribute__((aligned(64)));
char ompi_mpi_show_mca_params_string[1024] __attribute__((aligned(64)));
char ompi_mpi_signed_char[1024] __attribute__((aligned(64)));
char ompi_mpi_spc_attach_string[1024] __attribute__((aligned(64)));
char ompi_mpi_spc_dump_enabled[1024] __attribute__((aligned(64)));
char ompi_mpi_state[1024] __attribute__((aligned(64)));
char ompi_mpi_thread_multiple[1024] __attribute__((aligned(64)));
char ompi_mpi_thread_provided[1024] __attribute__((aligned(64)));
char ompi_mpi_thread_requested[1024] __attribute__((aligned(64)));
char ompi_mpi_ub[1024] __attribute__((aligned(64)));
char ompi_mpi_uint16_t[1024] __attribute__((aligned(64)));
char ompi_mpi_uint32_t[1024] __attribute__((aligned(64)));
char ompi_mpi_uint64_t[1024] __attribute__((aligned(64)));
char ompi_mpi_uint8_t[1024] __attribute__((aligned(64)));
char ompi_mpi_unavailable[1024] __attribute__((aligned(64)));
char ompi_mpi_unsigned[1024] __attribute__((aligned(64)));
char ompi_mpi_unsigned_char[1024] __attribute__((aligned(64)));
char ompi_mpi_unsigned_long[1024] __attribute__((aligned(64)));
char ompi_mpi_unsigned_long_long[1024] __attribute__((aligned(64)));
char ompi_mpi_unsigned_short[1024] __attribute__((aligned(64)));
char ompi_mpi_wchar[1024] __attribute__((aligned(64)));
char ompi_mpi_win_null[1024] __attribute__((aligned(64)));
char ompi_mpi_windows[1024] __attribute__((aligned(64)));
char ompi_mpi_yield_when_idle[1024] __attribute__((aligned(64)));
char ompi_request_empty[1024] __attribute__((aligned(64)));
char ompi_request_null[1024] __attribute__((aligned(64)));
