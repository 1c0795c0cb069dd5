`timescale 1ns / 1ps
module top_avst #(
    parameter W = 256,
    parameter S = 1,
    parameter FW = 2,
    parameter EW = 3
) (
    input wire clk,
    input wire rst,
    input wire [W-1:0] x_data,
    input wire [S*EW-1:0] x_empty,
    input wire [S-1:0] x_sop,
    input wire [S-1:0] x_eop,
    input wire [S-1:0] x_valid,
    input wire x_ready,
    input wire [S-1:0] x_err,
    input wire [S*128-1:0] x_hdr,
    input wire [S*32-1:0] x_tlp_prfx,
    input wire [S*3-1:0] x_bar_range,
    input wire [S-1:0] x_tlp_abort,
    input wire [S-1:0] x_vf_active,
    input wire [S*FW-1:0] x_func_num,
    input wire [S*11-1:0] x_vf_num,
    input wire [W/8-1:0] x_parity,
    input wire [W/8-1:0] x_data_par,
    input wire [S*16-1:0] x_hdr_par,
    input wire [S*4-1:0] x_tlp_prfx_par,
    input wire [W-1:0] y_data,
    input wire [S*EW-1:0] y_empty,
    input wire [S-1:0] y_sop,
    input wire [S-1:0] y_eop,
    input wire [S-1:0] y_valid,
    input wire y_ready,
    input wire [S-1:0] y_err,
    input wire [S*128-1:0] y_hdr,
    input wire [S*32-1:0] y_tlp_prfx,
    input wire [S*3-1:0] y_bar_range,
    input wire [S-1:0] y_tlp_abort
);
endmodule
