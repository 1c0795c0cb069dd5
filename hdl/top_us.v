`timescale 1ns / 1ps
module top_us #(
    parameter W = 64,
    parameter UW = 60,
    parameter KW = W / 32
) (
    input wire clk,
    input wire rst,
    input wire [W-1:0] x_tdata,
    input wire x_tvalid,
    input wire x_tready,
    input wire x_tlast,
    input wire [KW-1:0] x_tkeep,
    input wire [UW-1:0] x_tuser
);
endmodule
