// Wires of a Stratix 10 or P-Tile PCIe block; both sides are driven by the test
`timescale 1ns / 1ps
module top_hip_avst #(
    parameter W = 256,
    parameter S = 1,
    parameter FW = 2,
    parameter EW = 3,
    parameter CW = 32
) (
    input wire clk,
    input wire reset_status,
    input wire perst,
    input wire [W-1:0] rx_data, tx_data,
    input wire [S*EW-1:0] rx_empty,
    input wire [S-1:0] rx_sop, tx_sop,
    input wire [S-1:0] rx_eop, tx_eop,
    input wire [S-1:0] rx_valid, tx_valid,
    input wire rx_ready, tx_ready,
    input wire [S-1:0] tx_err,
    input wire [S*128-1:0] rx_hdr, tx_hdr,
    input wire [S*32-1:0] rx_tlp_prfx, tx_tlp_prfx,
    input wire [S*3-1:0] rx_bar_range,
    input wire [S-1:0] rx_tlp_abort,
    input wire [S-1:0] rx_vf_active, tx_vf_active,
    input wire [S*FW-1:0] rx_func_num,
    input wire [S*11-1:0] rx_vf_num,
    input wire [W/8-1:0] rx_parity, tx_parity,
    input wire [W/8-1:0] rx_data_par, tx_data_par,
    input wire [S*16-1:0] rx_hdr_par, tx_hdr_par,
    input wire [S*4-1:0] rx_tlp_prfx_par, tx_tlp_prfx_par,
    input wire [7:0] tx_ph_cdts, tx_nph_cdts, tx_cplh_cdts,
    input wire [11:0] tx_pd_cdts, tx_npd_cdts, tx_cpld_cdts,
    input wire [15:0] tx_cdts_limit,
    input wire [2:0] tx_cdts_limit_tdm_idx,
    input wire app_msi_req, app_msi_ack,
    input wire [2:0] app_msi_tc,
    input wire [4:0] app_msi_num,
    input wire [1:0] app_msi_func_num,
    input wire [FW-1:0] tl_cfg_func,
    input wire [4:0] tl_cfg_add,
    input wire [CW-1:0] tl_cfg_ctl
);
endmodule
