#pragma once
extern long sim_bank_size;   // see CENTAURUS_SIM_BANK_SIZE in the repository
