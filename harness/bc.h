// bytecode built by a harness
#pragma once
#ifndef BC_MAX
#define BC_MAX 64
#endif
static u8 bc_data[BC_MAX];
static struct bytecode bc = { .data = bc_data };
static void bc_op(int op, int arg){
	bc_data[bc.size++] = op;
	bc_data[bc.size++] = arg;
}
static void bc_num(fixp n){
	bc_op(BC_NUMBER, 0);
	bc_data[bc.size++] = (uint32_t)n >> 24;
	bc_data[bc.size++] = (uint32_t)n >> 16;
	bc_data[bc.size++] = (uint32_t)n >> 8;
	bc_data[bc.size++] = (uint32_t)n;
}
