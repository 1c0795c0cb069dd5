// Wires of an UltraScale(+) PCIe block; both sides are driven by the test
`timescale 1ns / 1ps
module top_hip_us #(
    parameter W = 64,
    parameter KW = W / 32,
    parameter UQ = 62,
    parameter UR = 75,
    parameter UC = 88,
    parameter UX = 33,
    parameter SN = 6,
    parameter TG = 8,
    parameter TA = 4,
    parameter NP = 2,
    parameter MA = 10,
    parameter NW = 3,
    parameter SP = 2,
    parameter MP = 2,
    parameter MS = 2,
    parameter PF = 2,
    parameter MF = 8,
    parameter XE = 4
) (
    input wire user_clk,
    input wire user_reset,
    input wire user_lnk_up,
    input wire sys_reset,
    input wire [W-1:0] rq_tdata, rc_tdata, cq_tdata, cc_tdata,
    input wire rq_tvalid, rc_tvalid, cq_tvalid, cc_tvalid,
    input wire rq_tready, rc_tready, cq_tready, cc_tready,
    input wire rq_tlast, rc_tlast, cq_tlast, cc_tlast,
    input wire [KW-1:0] rq_tkeep, rc_tkeep, cq_tkeep, cc_tkeep,
    input wire [UQ-1:0] rq_tuser,
    input wire [UR-1:0] rc_tuser,
    input wire [UC-1:0] cq_tuser,
    input wire [UX-1:0] cc_tuser,
    input wire [SN-1:0] rq_seq_num0, rq_seq_num1,
    input wire rq_seq_num_vld0, rq_seq_num_vld1,
    input wire [TG-1:0] rq_tag0, rq_tag1,
    input wire rq_tag_vld0, rq_tag_vld1,
    input wire [TA-1:0] rq_tag_av,
    input wire [NP-1:0] cq_np_req,
    input wire [5:0] cq_np_req_count,
    input wire [MA-1:0] cfg_mgmt_addr,
    input wire [7:0] cfg_mgmt_function_number,
    input wire cfg_mgmt_write, cfg_mgmt_read, cfg_mgmt_read_write_done,
    input wire [31:0] cfg_mgmt_write_data, cfg_mgmt_read_data,
    input wire [3:0] cfg_mgmt_byte_enable,
    input wire cfg_phy_link_down,
    input wire [NW-1:0] cfg_negotiated_width,
    input wire [SP-1:0] cfg_current_speed,
    input wire [MP-1:0] cfg_max_payload,
    input wire [2:0] cfg_max_read_req,
    input wire [15:0] cfg_function_status,
    input wire [4:0] cfg_local_error_out,
    input wire cfg_local_error_valid,
    input wire cfg_local_error,
    input wire [3:0] cfg_rcb_status,
    input wire [7:0] cfg_fc_ph, cfg_fc_nph, cfg_fc_cplh,
    input wire [11:0] cfg_fc_pd, cfg_fc_npd, cfg_fc_cpld,
    input wire [2:0] cfg_fc_sel,
    input wire cfg_config_space_enable,
    input wire [7:0] cfg_bus_number,
    input wire [3:0] cfg_interrupt_msi_enable,
    input wire [11:0] cfg_interrupt_msi_mmenable,
    input wire [31:0] cfg_interrupt_msi_data,
    input wire [MS-1:0] cfg_interrupt_msi_select,
    input wire [31:0] cfg_interrupt_msi_int,
    input wire [31:0] cfg_interrupt_msi_pending_status,
    input wire cfg_interrupt_msi_pending_status_data_enable,
    input wire [PF-1:0] cfg_interrupt_msi_pending_status_function_num,
    input wire cfg_interrupt_msi_sent, cfg_interrupt_msi_fail,
    input wire [XE-1:0] cfg_interrupt_msix_enable, cfg_interrupt_msix_mask,
    input wire [63:0] cfg_interrupt_msix_address,
    input wire [31:0] cfg_interrupt_msix_data,
    input wire cfg_interrupt_msix_int, cfg_interrupt_msix_sent, cfg_interrupt_msix_fail,
    input wire [2:0] cfg_interrupt_msi_attr,
    input wire [MF-1:0] cfg_interrupt_msi_function_number
);
endmodule
