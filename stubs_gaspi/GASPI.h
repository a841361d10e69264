// declarations of the GASPI functions the code uses: all of them unknown externals to the analyses
#ifndef VP_GASPI_H
#define VP_GASPI_H
typedef int gaspi_return_t; typedef unsigned int gaspi_number_t; typedef unsigned short gaspi_rank_t; typedef unsigned char gaspi_segment_id_t; typedef unsigned char gaspi_queue_id_t;
typedef unsigned long gaspi_offset_t; typedef unsigned long gaspi_size_t; typedef unsigned short gaspi_notification_id_t; typedef unsigned int gaspi_notification_t; typedef unsigned long gaspi_timeout_t; typedef unsigned char gaspi_group_t; typedef unsigned char gaspi_memory_description_t;
#define GASPI_SUCCESS 0
#define GASPI_ERROR -1
#define GASPI_TIMEOUT 1
#define GASPI_BLOCK (~0ul)
#define GASPI_TEST 0ul
#define GASPI_GROUP_ALL 0
extern "C" {
  gaspi_return_t gaspi_proc_init(gaspi_timeout_t); gaspi_return_t gaspi_proc_term(gaspi_timeout_t); gaspi_return_t gaspi_proc_rank(gaspi_rank_t*); gaspi_return_t gaspi_proc_num(gaspi_rank_t*); gaspi_return_t gaspi_version(float*);
  gaspi_return_t gaspi_queue_size_max(gaspi_number_t*); gaspi_return_t gaspi_queue_size(gaspi_queue_id_t, gaspi_number_t*); gaspi_return_t gaspi_queue_num(gaspi_number_t*); gaspi_return_t gaspi_wait(gaspi_queue_id_t, gaspi_timeout_t);
  gaspi_return_t gaspi_segment_use(gaspi_segment_id_t, void*, gaspi_size_t, gaspi_group_t, gaspi_timeout_t, gaspi_memory_description_t); gaspi_return_t gaspi_notification_num(gaspi_number_t*);
  gaspi_return_t gaspi_write_notify(gaspi_segment_id_t, gaspi_offset_t, gaspi_rank_t, gaspi_segment_id_t, gaspi_offset_t, gaspi_size_t, gaspi_notification_id_t, gaspi_notification_t, gaspi_queue_id_t, gaspi_timeout_t);
  gaspi_return_t gaspi_notify_waitsome(gaspi_segment_id_t, gaspi_notification_id_t, gaspi_number_t, gaspi_notification_id_t*, gaspi_timeout_t); gaspi_return_t gaspi_notify_reset(gaspi_segment_id_t, gaspi_notification_id_t, gaspi_notification_t*);
}
#endif
