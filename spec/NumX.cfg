SPECIFICATION Spec
CONSTANTS
 Slots = {}
 Nums = {0, 1, 2, 3, 6, 9, 10, 11, 12, 13, 38, 39, 63, 64, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 1000001, 16777215, 16777216, 16777217, 99999999, 100000000, 999999999, 1000000000, 2147483646, 2147483647}
INVARIANT Emit
CHECK_DEADLOCK FALSE
