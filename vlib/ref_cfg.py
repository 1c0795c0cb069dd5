"""Reference layout of configuration registers, from the PCI Express and PCI
Local Bus specifications (not from the code under test).

Each entry: register index within the structure, access, fields
attr:lsb[:width].  Access: ro (read only), rw, w1c (write one to clear),
x (readable where the specification leaves writing to the implementation).
"""

COMMON = """
0 ro vendor_id:0:16 device_id:16:16
1 rw io_space_enable:0 memory_space_enable:1 bus_master_enable:2 parity_error_response_enable:6 serr_enable:8 interrupt_disable:10
1 ro interrupt_status:19 capabilities_list:20
1 w1c master_data_parity_error:24 signaled_target_abort:27 received_target_abort:28 received_master_abort:29 signaled_system_error:30 detected_parity_error:31
2 ro revision_id:0:8 class_code:8:24
3 rw cache_line_size:0:8
3 ro latency_timer:8:8 header_layout:16:7 multifunction_device:23 bist_completion_code:24:4 bist_capable:31
3 rw start_bist:30
13 ro capabilities_ptr:0:8
15 rw interrupt_line:0:8
15 ro interrupt_pin:8:8
"""

TYPE0 = COMMON + """
11 ro subsystem_vendor_id:0:16 subsystem_id:16:16
"""

TYPE1 = COMMON + """
6 rw pri_bus_num:0:8 sec_bus_num:8:8 sub_bus_num:16:8
6 ro sec_lat_timer:24:8
7 w1c sec_master_data_parity_error:24 sec_signaled_target_abort:27 sec_received_target_abort:28 sec_received_master_abort:29 sec_received_system_error:30 sec_detected_parity_error:31
15 rw bridge_parity_error_response_enable:16 bridge_serr_enable:17 secondary_bus_reset:22
"""

# bridge windows: (attribute, register, lsb, width, shift of the value, low bits of a limit)
TYPE1_WINDOWS = [
    (7, 4, 4, "io_base", 12, None), (7, 12, 4, "io_limit", 12, 0xfff),
    (12, 0, 16, "io_base", 16, None), (12, 16, 16, "io_limit", 16, 0xfff),
    (8, 4, 12, "mem_base", 20, None), (8, 20, 12, "mem_limit", 20, 0xfffff),
    (9, 4, 12, "prefetchable_mem_base", 20, None), (9, 20, 12, "prefetchable_mem_limit", 20, 0xfffff),
    (10, 0, 32, "prefetchable_mem_base", 32, None), (11, 0, 32, "prefetchable_mem_limit", 32, 0xfffff),
]

PM = """
0 ro @version:16:3=3 pme_clock:19 immediate_readiness_on_return_to_d0:20 device_specific_initialization:21 aux_current:22:3 d1_support:25 d2_support:26 pme_support:27:5
1 rw power_state:0:2 pme_enable:8 data_select:9:4
1 ro no_soft_reset:3 pm_data:24:8
1 x data_scale:13:2
1 w1c pme_status:15
"""

EXP = """
0 ro @version:16:4=2 pcie_device_type:20:4 pcie_slot_implemented:24 interrupt_message_number:25:5
1 ro max_payload_size_supported:0:3 phantom_functions_supported:3:2 extended_tag_supported:5 endpoint_l0s_acceptable_latency:6:3 endpoint_l1_acceptable_latency:9:3 role_based_error_reporting:15 captured_slot_power_limit_value:18:8 captured_slot_power_limit_scale:26:2 function_level_reset_capability:28
2 rw correctable_error_reporting_enable:0 non_fatal_error_reporting_enable:1 fatal_error_reporting_enable:2 unsupported_request_reporting_enable:3 enable_relaxed_ordering:4 max_payload_size:5:3 extended_tag_field_enable:8 phantom_functions_enable:9 aux_power_pm_enable:10 enable_no_snoop:11 max_read_request_size:12:3
2 w1c correctable_error_detected:16 nonfatal_error_detected:17 fatal_error_detected:18 unsupported_request_detected:19 emergency_power_reduction_detected:22
2 ro aux_power_detected:20 transactions_pending:21
3 ro max_link_speed:0:4 max_link_width:4:6 aspm_support:10:2 l0s_exit_latency:12:3 l1_exit_latency:15:3 clock_power_management:18 surprise_down_error_reporting_capability:19 data_link_layer_link_active_reporting_capable:20 link_bandwidth_notification_capability:21 aspm_optionality_compliance:22 port_number:24:8
4 rw aspm_control:0:2 read_completion_boundary:3 link_disable:4 common_clock_configuration:6 extended_synch:7 enable_clock_power_management:8 hardware_autonomous_width_disable:9 link_bandwidth_management_interrupt_enable:10 link_autonomous_bandwidth_interrupt_enable:11 drs_signalling_control:14:2
4 ro current_link_speed:16:4 negotiated_link_width:20:6 link_training:27 slot_clock_configuration:28 data_link_layer_link_active:29
4 w1c link_bandwidth_management_status:30 link_autonomous_bandwidth_status:31
5 ro attention_button_present:0 power_controller_present:1 mrl_sensor_present:2 attention_indicator_present:3 power_indicator_present:4 hot_plug_surprise:5 hot_plug_capable:6 slot_power_limit_value:7:8 slot_power_limit_scale:15:2 electromechanical_interlock_present:17 no_command_completed_support:18 physical_slot_number:19:13
6 rw attention_button_pressed_enable:0 power_fault_detected_enable:1 mrl_sensor_changed_enable:2 presence_detect_changed_enable:3 command_completed_interrupt_enable:4 hot_plug_interrupt_enable:5 attention_indicator_control:6:2 power_indicator_control:8:2 power_controller_control:10 data_link_layer_state_changed_enable:12 auto_slot_power_limit_disable:13
6 x electromechanical_interlock_control:11
6 w1c attention_button_pressed:16 power_fault_detected:17 mrl_sensor_changed:18 presence_detect_changed:19 command_completed:20 data_link_layer_state_changed:24
6 ro mrl_sensor_state:21 presence_detect_state:22 electromechanical_interlock_status:23
7 rw system_error_on_correctable_error_enable:0 system_error_on_non_fatal_error_enable:1 system_error_on_fatal_error_enable:2 pme_interrupt_enable:3 crs_software_visibility_enable:4
7 ro crs_software_visibility:16
8 ro pme_requester_id:0:16 pme_pending:17
8 w1c pme_status:16
9 ro completion_timeout_ranges_supported:0:4 completion_timeout_disable_supported:4 ari_forwarding_supported:5 atomic_op_forwarding_supported:6 atomic_op_32_bit_completer_supported:7 atomic_op_64_bit_completer_supported:8 cas_128_bit_completer_supported:9 no_ro_enabled_pr_pr_passing:10 ltr_mechanism_supported:11 tph_completer_supported:12:2 obff_supported:18:2 extended_fmt_field_supported:20 end_end_tlp_prefix_supported:21 max_end_end_tlp_prefix:22:2 emergency_power_reduction_supported:24:2 emergency_power_reduction_initialization_required:26 frs_supported:31
10 rw completion_timeout_value:0:4 completion_timeout_disable:4 ari_forwarding_enable:5 atomic_op_requester_enable:6 atomic_op_egress_blocking:7 ido_request_enable:8 ido_completion_enable:9 ltr_mechanism_enable:10 emergency_power_reduction_request:11 ten_bit_tag_requester_enable:12 obff_enable:13:2 end_end_tlp_prefix_blocking:15
11 ro supported_link_speeds:1:7 crosslink_supported:8 lower_skp_os_generation_supported_speeds:9:7 lower_skp_os_reception_supported_speeds:16:7 retimer_presence_detect_supported:23 two_retimers_presence_detect_supported:24 drs_supported:31
12 rw target_link_speed:0:4 enter_compliance:4 hardware_autonomous_speed_disable:5 transmit_margin:7:3 enter_modified_compliance:10 compliance_sos:11
12 rw compliance_preset_deemphasis:12:4
12 x selectable_deemphasis:6
12 ro current_deemphasis_level:16 equalization_8gt_complete:17 equalization_8gt_phase_1_successful:18 equalization_8gt_phase_2_successful:19 equalization_8gt_phase_3_successful:20 retimer_presence_detected:22 two_retimers_presence_detected:23 crosslink_resolution:24:2
12 ro downstream_component_presence:28:3
12 w1c link_equalization_8gt_request:21 drs_message_received:31
"""

MSIX = """
0 ro msix_table_size:16:11
0 rw msix_function_mask:30 msix_enable:31
1 ro msix_table_bar_indicator_register:0:3
2 ro msix_pba_bar_indicator_register:0:3
"""

UNC = "data_link_protocol_error:4 surprise_down_error:5 poisoned_tlp_received:12 flow_control_protocol_error:13 completion_timeout:14 completer_abort:15 unexpected_completion:16 receiver_overflow:17 malformed_tlp:18 ecrc_error:19 unsupported_request_error:20 acs_violation:21 uncorrectable_internal_error:22 mc_blocked_tlp:23 atomicop_egress_blocked:24 tlp_prefix_blocked_error:25 poisoned_tlp_egress_blocked:26"
COR = "receiver_error:0 bad_tlp:6 bad_dllp:7 replay_num_rollover:8 replay_timer_timeout:12 advisory_nonfatal_error:13 corrected_internal_error:14 header_log_overflow:15"


def suf(s, x):
    return " ".join(f.split(":")[0] + x + ":" + f.split(":")[1] for f in s.split())


AER = f"""
1 w1c {suf(UNC, '_status')}
2 rw {suf(UNC, '_mask')}
3 rw {suf(UNC, '_severity')}
4 w1c {suf(COR, '_status')}
5 rw {suf(COR, '_mask')}
6 ro first_error_pointer:0:5 ecrc_generation_capable:5 ecrc_check_capable:7 multiple_header_recording_capable:9 tlp_prefix_log_present:11 completion_timeout_prefix_header_log_capable:12
6 rw ecrc_generation_enable:6 ecrc_check_enable:8 multiple_header_recording_enable:10
7 ro header_log[0]:0:32
8 ro header_log[1]:0:32
9 ro header_log[2]:0:32
10 ro header_log[3]:0:32
11 rw correctable_error_reporting_enable:0 nonfatal_error_reporting_enable:1 fatal_error_reporting_enable:2
12 w1c err_cor_received:0 multiple_err_cor_received:1 err_fatal_nonfatal_received:2 multiple_err_fatal_nonfatal_received:3 first_uncorrectable_fatal:4 nonfatal_error_messages_received:5 fatal_error_messages_received:6
12 ro advanced_error_interrupt_message_number:27:5
13 ro err_cor_source_identification:0:16 err_fatal_nonfatal_source_identification:16:16
14 ro tlp_prefix_log[0]:0:32
15 ro tlp_prefix_log[1]:0:32
16 ro tlp_prefix_log[2]:0:32
17 ro tlp_prefix_log[3]:0:32
"""

EXP2 = """
1 rw perform_equalization:0 link_equalization_request_interrupt_enable:1 enable_lower_skp_os_generation:9:7
2 w1c lane_error_status:0:32
""" + "\n".join(
    f"{3 + k} ro " + " ".join(f"{n}[{2 * k + h}]:{lsb + 16 * h}:{w}" for h in (0, 1) for n, lsb, w in (
        ("downstream_port_8gt_transmitter_preset", 0, 4), ("downstream_port_8gt_receiver_preset_hint", 4, 3),
        ("upstream_port_8gt_transmitter_preset", 8, 4), ("upstream_port_8gt_receiver_preset_hint", 12, 3))) for k in range(16))


def parse(text):
    """[(reg, access, attr, index, lsb, width, const)]"""
    out = []
    for line in text.strip().splitlines():
        w = line.split()
        if not w:
            continue
        reg, acc = int(w[0]), w[1]
        for f in w[2:]:
            const = None
            if "=" in f:
                f, c = f.split("=")
                const = int(c)
            p = f.split(":")
            name, lsb, width = p[0], int(p[1]), int(p[2]) if len(p) > 2 else 1
            idx = None
            if "[" in name:
                name, i = name[:-1].split("[")
                idx = int(i)
            out.append((reg, acc, name, idx, lsb, width, const))
    return out


def msi(is64, masking, ext):
    s = ["0 rw msi_enable:16 msi_multiple_message_enable:20:3" + (" msi_extended_message_data_enable:26" if ext else ""),
         "0 ro msi_multiple_message_capable:17:3 msi_64bit_address_capable:23 msi_per_vector_mask_capable:24 msi_extended_message_data_capable:25"]
    d = 3 if is64 else 2
    s.append(f"{d} rw msi_message_data:0:{32 if ext else 16}")
    if masking:
        s.append(f"{d + 1} rw msi_mask_bits:0:32")
        s.append(f"{d + 2} ro msi_pending_bits:0:32")
    return "\n".join(s)
