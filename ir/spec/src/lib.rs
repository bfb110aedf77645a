//! Written by gen.py: what the properties say about them.
#![allow(unused_parens, unused_comparisons, unused_mut, unused_variables, unused_assignments, unused_imports, improper_ctypes_definitions, clippy::all)]
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_u8(i: &[u8; 3], o: &mut [u8; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_u8(i: &[u8; 9], o: &mut [u8; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_u8(i: &[u8; 4], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_u8(i: &[u8; 13], o: &mut [u8; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_u8(i: &[u8; 3], o: &mut [u8; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_u8(i: &[u8; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_u16(i: &[u16; 2], o: &mut [u16; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_u16(i: &[u16; 2], o: &mut [u16; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_u16(i: &[u16; 2], o: &mut [u16; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_u16(i: &[u16; 4], o: &mut [u16; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_u16(i: &[u16; 3], o: &mut [u16; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_u16(i: &[u16; 7], o: &mut [u16; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_u16(i: &[u16; 9], o: &mut [u16; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_u16(i: &[u16; 4], o: &mut [u16; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_u16(i: &[u16; 4], o: &mut [u16; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_u16(i: &[u16; 4], o: &mut [u16; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_u16(i: &[u16; 7], o: &mut [u16; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_u16(i: &[u16; 10], o: &mut [u16; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_u16(i: &[u16; 13], o: &mut [u16; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_u16(i: &[u16; 9], o: &mut [u16; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_u16(i: &[u16; 13], o: &mut [u16; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_u16(i: &[u16; 17], o: &mut [u16; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_u16(i: &[u16; 3], o: &mut [u16; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_u16(i: &[u16; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_u32(i: &[u32; 2], o: &mut [u32; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_u32(i: &[u32; 2], o: &mut [u32; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_u32(i: &[u32; 2], o: &mut [u32; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_u32(i: &[u32; 4], o: &mut [u32; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_u32(i: &[u32; 3], o: &mut [u32; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_u32(i: &[u32; 7], o: &mut [u32; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_u32(i: &[u32; 9], o: &mut [u32; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_u32(i: &[u32; 4], o: &mut [u32; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_u32(i: &[u32; 4], o: &mut [u32; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_u32(i: &[u32; 4], o: &mut [u32; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_u32(i: &[u32; 7], o: &mut [u32; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_u32(i: &[u32; 10], o: &mut [u32; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_u32(i: &[u32; 13], o: &mut [u32; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_u32(i: &[u32; 9], o: &mut [u32; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_u32(i: &[u32; 13], o: &mut [u32; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_u32(i: &[u32; 17], o: &mut [u32; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_u32(i: &[u32; 3], o: &mut [u32; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_u32(i: &[u32; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_u64(i: &[u64; 2], o: &mut [u64; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_u64(i: &[u64; 2], o: &mut [u64; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_u64(i: &[u64; 3], o: &mut [u64; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_u64(i: &[u64; 9], o: &mut [u64; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_u64(i: &[u64; 4], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_u64(i: &[u64; 13], o: &mut [u64; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_u64(i: &[u64; 3], o: &mut [u64; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_u64(i: &[u64; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_u128(i: &[u128; 2], o: &mut [u128; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_u128(i: &[u128; 2], o: &mut [u128; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_u128(i: &[u128; 2], o: &mut [u128; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_u128(i: &[u128; 4], o: &mut [u128; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_u128(i: &[u128; 3], o: &mut [u128; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_u128(i: &[u128; 7], o: &mut [u128; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_u128(i: &[u128; 9], o: &mut [u128; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_u128(i: &[u128; 4], o: &mut [u128; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_u128(i: &[u128; 4], o: &mut [u128; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_u128(i: &[u128; 4], o: &mut [u128; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_u128(i: &[u128; 7], o: &mut [u128; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_u128(i: &[u128; 10], o: &mut [u128; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_u128(i: &[u128; 13], o: &mut [u128; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_u128(i: &[u128; 9], o: &mut [u128; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_u128(i: &[u128; 13], o: &mut [u128; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_u128(i: &[u128; 17], o: &mut [u128; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_u128(i: &[u128; 3], o: &mut [u128; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_u128(i: &[u128; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_usize(i: &[usize; 2], o: &mut [usize; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_usize(i: &[usize; 2], o: &mut [usize; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_usize(i: &[usize; 2], o: &mut [usize; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_usize(i: &[usize; 4], o: &mut [usize; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_usize(i: &[usize; 3], o: &mut [usize; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_usize(i: &[usize; 7], o: &mut [usize; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_usize(i: &[usize; 9], o: &mut [usize; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_usize(i: &[usize; 4], o: &mut [usize; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_usize(i: &[usize; 4], o: &mut [usize; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_usize(i: &[usize; 4], o: &mut [usize; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_usize(i: &[usize; 7], o: &mut [usize; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_usize(i: &[usize; 10], o: &mut [usize; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_usize(i: &[usize; 13], o: &mut [usize; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_usize(i: &[usize; 9], o: &mut [usize; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_usize(i: &[usize; 13], o: &mut [usize; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_usize(i: &[usize; 17], o: &mut [usize; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_usize(i: &[usize; 3], o: &mut [usize; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_usize(i: &[usize; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_i8(i: &[i8; 2], o: &mut [i8; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_i8(i: &[i8; 2], o: &mut [i8; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_i8(i: &[i8; 2], o: &mut [i8; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_i8(i: &[i8; 4], o: &mut [i8; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_i8(i: &[i8; 3], o: &mut [i8; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_i8(i: &[i8; 7], o: &mut [i8; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_i8(i: &[i8; 9], o: &mut [i8; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_i8(i: &[i8; 4], o: &mut [i8; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_i8(i: &[i8; 4], o: &mut [i8; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_i8(i: &[i8; 4], o: &mut [i8; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_i8(i: &[i8; 7], o: &mut [i8; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_i8(i: &[i8; 10], o: &mut [i8; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_i8(i: &[i8; 13], o: &mut [i8; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_i8(i: &[i8; 9], o: &mut [i8; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_i8(i: &[i8; 13], o: &mut [i8; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_i8(i: &[i8; 17], o: &mut [i8; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_i8(i: &[i8; 3], o: &mut [i8; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_i8(i: &[i8; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_i8(i: &[i8; 3], o: &mut [i8; 4]) -> bool {
    o[0] = i[2].wrapping_neg();o[1] = i[2].wrapping_neg();o[2] = i[2].wrapping_neg();o[3] = i[2].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let d = i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])); if d == 0 || d == -1 { return false; }o[0] = i[0].wrapping_mul(i[1]) / d; o[1] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[2] = i[0].wrapping_mul(i[1]) / d; o[3] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[4] = i[0].wrapping_mul(i[1]) / d; o[5] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[6] = i[0].wrapping_mul(i[1]) / d; o[7] = i[0].wrapping_mul(i[2]).wrapping_neg() / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_i16(i: &[i16; 2], o: &mut [i16; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_i16(i: &[i16; 2], o: &mut [i16; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_i16(i: &[i16; 3], o: &mut [i16; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_i16(i: &[i16; 9], o: &mut [i16; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_i16(i: &[i16; 4], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_i16(i: &[i16; 13], o: &mut [i16; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_i16(i: &[i16; 3], o: &mut [i16; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_i16(i: &[i16; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_i16(i: &[i16; 3], o: &mut [i16; 4]) -> bool {
    o[0] = i[2].wrapping_neg();o[1] = i[2].wrapping_neg();o[2] = i[2].wrapping_neg();o[3] = i[2].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let d = i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])); if d == 0 || d == -1 { return false; }o[0] = i[0].wrapping_mul(i[1]) / d; o[1] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[2] = i[0].wrapping_mul(i[1]) / d; o[3] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[4] = i[0].wrapping_mul(i[1]) / d; o[5] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[6] = i[0].wrapping_mul(i[1]) / d; o[7] = i[0].wrapping_mul(i[2]).wrapping_neg() / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_i32(i: &[i32; 2], o: &mut [i32; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_i32(i: &[i32; 3], o: &mut [i32; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_i32(i: &[i32; 9], o: &mut [i32; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_i32(i: &[i32; 4], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_i32(i: &[i32; 13], o: &mut [i32; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_i32(i: &[i32; 3], o: &mut [i32; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_i32(i: &[i32; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_i32(i: &[i32; 3], o: &mut [i32; 4]) -> bool {
    o[0] = i[2].wrapping_neg();o[1] = i[2].wrapping_neg();o[2] = i[2].wrapping_neg();o[3] = i[2].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let d = i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])); if d == 0 || d == -1 { return false; }o[0] = i[0].wrapping_mul(i[1]) / d; o[1] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[2] = i[0].wrapping_mul(i[1]) / d; o[3] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[4] = i[0].wrapping_mul(i[1]) / d; o[5] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[6] = i[0].wrapping_mul(i[1]) / d; o[7] = i[0].wrapping_mul(i[2]).wrapping_neg() / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_i64(i: &[i64; 2], o: &mut [i64; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_i64(i: &[i64; 2], o: &mut [i64; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_i64(i: &[i64; 3], o: &mut [i64; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_i64(i: &[i64; 7], o: &mut [i64; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_i64(i: &[i64; 9], o: &mut [i64; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_i64(i: &[i64; 4], o: &mut [i64; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_i64(i: &[i64; 7], o: &mut [i64; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_i64(i: &[i64; 10], o: &mut [i64; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_i64(i: &[i64; 13], o: &mut [i64; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_i64(i: &[i64; 9], o: &mut [i64; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_i64(i: &[i64; 13], o: &mut [i64; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_i64(i: &[i64; 17], o: &mut [i64; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_i64(i: &[i64; 3], o: &mut [i64; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_i64(i: &[i64; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_i64(i: &[i64; 3], o: &mut [i64; 4]) -> bool {
    o[0] = i[2].wrapping_neg();o[1] = i[2].wrapping_neg();o[2] = i[2].wrapping_neg();o[3] = i[2].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let d = i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])); if d == 0 || d == -1 { return false; }o[0] = i[0].wrapping_mul(i[1]) / d; o[1] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[2] = i[0].wrapping_mul(i[1]) / d; o[3] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[4] = i[0].wrapping_mul(i[1]) / d; o[5] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[6] = i[0].wrapping_mul(i[1]) / d; o[7] = i[0].wrapping_mul(i[2]).wrapping_neg() / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_i128(i: &[i128; 2], o: &mut [i128; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_i128(i: &[i128; 2], o: &mut [i128; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_i128(i: &[i128; 2], o: &mut [i128; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_i128(i: &[i128; 4], o: &mut [i128; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_i128(i: &[i128; 3], o: &mut [i128; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_i128(i: &[i128; 7], o: &mut [i128; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_i128(i: &[i128; 9], o: &mut [i128; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_i128(i: &[i128; 4], o: &mut [i128; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_i128(i: &[i128; 4], o: &mut [i128; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_i128(i: &[i128; 4], o: &mut [i128; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_i128(i: &[i128; 7], o: &mut [i128; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_i128(i: &[i128; 10], o: &mut [i128; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_i128(i: &[i128; 13], o: &mut [i128; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_i128(i: &[i128; 9], o: &mut [i128; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_i128(i: &[i128; 13], o: &mut [i128; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_i128(i: &[i128; 17], o: &mut [i128; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_i128(i: &[i128; 3], o: &mut [i128; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_i128(i: &[i128; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_i128(i: &[i128; 3], o: &mut [i128; 4]) -> bool {
    o[0] = i[2].wrapping_neg();o[1] = i[2].wrapping_neg();o[2] = i[2].wrapping_neg();o[3] = i[2].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let d = i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])); if d == 0 || d == -1 { return false; }o[0] = i[0].wrapping_mul(i[1]) / d; o[1] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[2] = i[0].wrapping_mul(i[1]) / d; o[3] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[4] = i[0].wrapping_mul(i[1]) / d; o[5] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[6] = i[0].wrapping_mul(i[1]) / d; o[7] = i[0].wrapping_mul(i[2]).wrapping_neg() / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_isize(i: &[isize; 2], o: &mut [isize; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_isize(i: &[isize; 2], o: &mut [isize; 2]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_isize(i: &[isize; 2], o: &mut [isize; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]);o[1] = i[0].wrapping_mul(i[1]);o[2] = i[0].wrapping_mul(i[1]);o[3] = i[0].wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_isize(i: &[isize; 4], o: &mut [isize; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_isize(i: &[isize; 3], o: &mut [isize; 4]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_isize(i: &[isize; 7], o: &mut [isize; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_isize(i: &[isize; 9], o: &mut [isize; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_isize(i: &[isize; 4], o: &mut [isize; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_isize(i: &[isize; 4], o: &mut [isize; 6]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_isize(i: &[isize; 4], o: &mut [isize; 12]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]);o[3] = i[0].wrapping_mul(i[1]); o[4] = i[0].wrapping_mul(i[2]); o[5] = i[0].wrapping_mul(i[3]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_isize(i: &[isize; 7], o: &mut [isize; 24]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); o[8] = i[0].wrapping_mul(i[3]); o[9] = i[0].wrapping_mul(i[4]); o[10] = i[0].wrapping_mul(i[5]); o[11] = i[0].wrapping_mul(i[6]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_isize(i: &[isize; 10], o: &mut [isize; 36]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]);o[9] = i[0].wrapping_mul(i[1]); o[10] = i[0].wrapping_mul(i[2]); o[11] = i[0].wrapping_mul(i[3]); o[12] = i[0].wrapping_mul(i[4]); o[13] = i[0].wrapping_mul(i[5]); o[14] = i[0].wrapping_mul(i[6]); o[15] = i[0].wrapping_mul(i[7]); o[16] = i[0].wrapping_mul(i[8]); o[17] = i[0].wrapping_mul(i[9]);o[18] = i[0].wrapping_mul(i[1]); o[19] = i[0].wrapping_mul(i[2]); o[20] = i[0].wrapping_mul(i[3]); o[21] = i[0].wrapping_mul(i[4]); o[22] = i[0].wrapping_mul(i[5]); o[23] = i[0].wrapping_mul(i[6]); o[24] = i[0].wrapping_mul(i[7]); o[25] = i[0].wrapping_mul(i[8]); o[26] = i[0].wrapping_mul(i[9]);o[27] = i[0].wrapping_mul(i[1]); o[28] = i[0].wrapping_mul(i[2]); o[29] = i[0].wrapping_mul(i[3]); o[30] = i[0].wrapping_mul(i[4]); o[31] = i[0].wrapping_mul(i[5]); o[32] = i[0].wrapping_mul(i[6]); o[33] = i[0].wrapping_mul(i[7]); o[34] = i[0].wrapping_mul(i[8]); o[35] = i[0].wrapping_mul(i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_isize(i: &[isize; 13], o: &mut [isize; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_isize(i: &[isize; 9], o: &mut [isize; 32]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]); o[12] = i[0].wrapping_mul(i[5]); o[13] = i[0].wrapping_mul(i[6]); o[14] = i[0].wrapping_mul(i[7]); o[15] = i[0].wrapping_mul(i[8]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_isize(i: &[isize; 13], o: &mut [isize; 48]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); o[16] = i[0].wrapping_mul(i[5]); o[17] = i[0].wrapping_mul(i[6]); o[18] = i[0].wrapping_mul(i[7]); o[19] = i[0].wrapping_mul(i[8]); o[20] = i[0].wrapping_mul(i[9]); o[21] = i[0].wrapping_mul(i[10]); o[22] = i[0].wrapping_mul(i[11]); o[23] = i[0].wrapping_mul(i[12]);o[24] = i[0].wrapping_mul(i[1]); o[25] = i[0].wrapping_mul(i[2]); o[26] = i[0].wrapping_mul(i[3]); o[27] = i[0].wrapping_mul(i[4]); o[28] = i[0].wrapping_mul(i[5]); o[29] = i[0].wrapping_mul(i[6]); o[30] = i[0].wrapping_mul(i[7]); o[31] = i[0].wrapping_mul(i[8]); o[32] = i[0].wrapping_mul(i[9]); o[33] = i[0].wrapping_mul(i[10]); o[34] = i[0].wrapping_mul(i[11]); o[35] = i[0].wrapping_mul(i[12]);o[36] = i[0].wrapping_mul(i[1]); o[37] = i[0].wrapping_mul(i[2]); o[38] = i[0].wrapping_mul(i[3]); o[39] = i[0].wrapping_mul(i[4]); o[40] = i[0].wrapping_mul(i[5]); o[41] = i[0].wrapping_mul(i[6]); o[42] = i[0].wrapping_mul(i[7]); o[43] = i[0].wrapping_mul(i[8]); o[44] = i[0].wrapping_mul(i[9]); o[45] = i[0].wrapping_mul(i[10]); o[46] = i[0].wrapping_mul(i[11]); o[47] = i[0].wrapping_mul(i[12]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_isize(i: &[isize; 17], o: &mut [isize; 64]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]); o[4] = i[0].wrapping_mul(i[5]); o[5] = i[0].wrapping_mul(i[6]); o[6] = i[0].wrapping_mul(i[7]); o[7] = i[0].wrapping_mul(i[8]); o[8] = i[0].wrapping_mul(i[9]); o[9] = i[0].wrapping_mul(i[10]); o[10] = i[0].wrapping_mul(i[11]); o[11] = i[0].wrapping_mul(i[12]); o[12] = i[0].wrapping_mul(i[13]); o[13] = i[0].wrapping_mul(i[14]); o[14] = i[0].wrapping_mul(i[15]); o[15] = i[0].wrapping_mul(i[16]);o[16] = i[0].wrapping_mul(i[1]); o[17] = i[0].wrapping_mul(i[2]); o[18] = i[0].wrapping_mul(i[3]); o[19] = i[0].wrapping_mul(i[4]); o[20] = i[0].wrapping_mul(i[5]); o[21] = i[0].wrapping_mul(i[6]); o[22] = i[0].wrapping_mul(i[7]); o[23] = i[0].wrapping_mul(i[8]); o[24] = i[0].wrapping_mul(i[9]); o[25] = i[0].wrapping_mul(i[10]); o[26] = i[0].wrapping_mul(i[11]); o[27] = i[0].wrapping_mul(i[12]); o[28] = i[0].wrapping_mul(i[13]); o[29] = i[0].wrapping_mul(i[14]); o[30] = i[0].wrapping_mul(i[15]); o[31] = i[0].wrapping_mul(i[16]);o[32] = i[0].wrapping_mul(i[1]); o[33] = i[0].wrapping_mul(i[2]); o[34] = i[0].wrapping_mul(i[3]); o[35] = i[0].wrapping_mul(i[4]); o[36] = i[0].wrapping_mul(i[5]); o[37] = i[0].wrapping_mul(i[6]); o[38] = i[0].wrapping_mul(i[7]); o[39] = i[0].wrapping_mul(i[8]); o[40] = i[0].wrapping_mul(i[9]); o[41] = i[0].wrapping_mul(i[10]); o[42] = i[0].wrapping_mul(i[11]); o[43] = i[0].wrapping_mul(i[12]); o[44] = i[0].wrapping_mul(i[13]); o[45] = i[0].wrapping_mul(i[14]); o[46] = i[0].wrapping_mul(i[15]); o[47] = i[0].wrapping_mul(i[16]);o[48] = i[0].wrapping_mul(i[1]); o[49] = i[0].wrapping_mul(i[2]); o[50] = i[0].wrapping_mul(i[3]); o[51] = i[0].wrapping_mul(i[4]); o[52] = i[0].wrapping_mul(i[5]); o[53] = i[0].wrapping_mul(i[6]); o[54] = i[0].wrapping_mul(i[7]); o[55] = i[0].wrapping_mul(i[8]); o[56] = i[0].wrapping_mul(i[9]); o[57] = i[0].wrapping_mul(i[10]); o[58] = i[0].wrapping_mul(i[11]); o[59] = i[0].wrapping_mul(i[12]); o[60] = i[0].wrapping_mul(i[13]); o[61] = i[0].wrapping_mul(i[14]); o[62] = i[0].wrapping_mul(i[15]); o[63] = i[0].wrapping_mul(i[16]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]); o[2] = i[0].wrapping_mul(i[3]); o[3] = i[0].wrapping_mul(i[4]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]); o[6] = i[0].wrapping_mul(i[3]); o[7] = i[0].wrapping_mul(i[4]);o[8] = i[0].wrapping_mul(i[1]); o[9] = i[0].wrapping_mul(i[2]); o[10] = i[0].wrapping_mul(i[3]); o[11] = i[0].wrapping_mul(i[4]);o[12] = i[0].wrapping_mul(i[1]); o[13] = i[0].wrapping_mul(i[2]); o[14] = i[0].wrapping_mul(i[3]); o[15] = i[0].wrapping_mul(i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    o[0] = i[0].wrapping_mul(i[1]); o[1] = i[0].wrapping_mul(i[2]);o[2] = i[0].wrapping_mul(i[1]); o[3] = i[0].wrapping_mul(i[2]);o[4] = i[0].wrapping_mul(i[1]); o[5] = i[0].wrapping_mul(i[2]);o[6] = i[0].wrapping_mul(i[1]); o[7] = i[0].wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    o[0] = i[0].wrapping_add(i[1]); o[1] = i[2];o[2] = i[0].wrapping_add(i[1]); o[3] = i[2];o[4] = i[0].wrapping_add(i[1]); o[5] = i[2];o[6] = i[0].wrapping_add(i[1]); o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_isize(i: &[isize; 3], o: &mut [isize; 4]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_isize(i: &[isize; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_isize(i: &[isize; 3], o: &mut [isize; 4]) -> bool {
    o[0] = i[2].wrapping_neg();o[1] = i[2].wrapping_neg();o[2] = i[2].wrapping_neg();o[3] = i[2].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let d = i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])); if d == 0 || d == -1 { return false; }o[0] = i[0].wrapping_mul(i[1]) / d; o[1] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[2] = i[0].wrapping_mul(i[1]) / d; o[3] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[4] = i[0].wrapping_mul(i[1]) / d; o[5] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;o[6] = i[0].wrapping_mul(i[1]) / d; o[7] = i[0].wrapping_mul(i[2]).wrapping_neg() / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    o[0] = i[0] * i[1];o[1] = i[0] * i[1];o[2] = i[0] * i[1];o[3] = i[0] * i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = i[0] * i[1];o[1] = i[0] * i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    o[0] = i[0] * i[1];o[1] = i[0] * i[1];o[2] = i[0] * i[1];o[3] = i[0] * i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_f32(i: &[f32; 3], o: &mut [f32; 4]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3]; o[9] = i[0] * i[4]; o[10] = i[0] * i[5]; o[11] = i[0] * i[6];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6];o[18] = i[0] * i[1]; o[19] = i[0] * i[2]; o[20] = i[0] * i[3]; o[21] = i[0] * i[4]; o[22] = i[0] * i[5]; o[23] = i[0] * i[6]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_f32(i: &[f32; 9], o: &mut [f32; 32]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4]; o[12] = i[0] * i[5]; o[13] = i[0] * i[6]; o[14] = i[0] * i[7]; o[15] = i[0] * i[8];o[16] = i[0] * i[1]; o[17] = i[0] * i[2]; o[18] = i[0] * i[3]; o[19] = i[0] * i[4]; o[20] = i[0] * i[5]; o[21] = i[0] * i[6]; o[22] = i[0] * i[7]; o[23] = i[0] * i[8];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_f32(i: &[f32; 4], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3]; o[9] = i[0] * i[4]; o[10] = i[0] * i[5]; o[11] = i[0] * i[6];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6];o[18] = i[0] * i[1]; o[19] = i[0] * i[2]; o[20] = i[0] * i[3]; o[21] = i[0] * i[4]; o[22] = i[0] * i[5]; o[23] = i[0] * i[6]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 36]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; o[12] = i[0] * i[4]; o[13] = i[0] * i[5]; o[14] = i[0] * i[6]; o[15] = i[0] * i[7]; o[16] = i[0] * i[8]; o[17] = i[0] * i[9];o[18] = i[0] * i[1]; o[19] = i[0] * i[2]; o[20] = i[0] * i[3]; o[21] = i[0] * i[4]; o[22] = i[0] * i[5]; o[23] = i[0] * i[6]; o[24] = i[0] * i[7]; o[25] = i[0] * i[8]; o[26] = i[0] * i[9];o[27] = i[0] * i[1]; o[28] = i[0] * i[2]; o[29] = i[0] * i[3]; o[30] = i[0] * i[4]; o[31] = i[0] * i[5]; o[32] = i[0] * i[6]; o[33] = i[0] * i[7]; o[34] = i[0] * i[8]; o[35] = i[0] * i[9]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_f32(i: &[f32; 13], o: &mut [f32; 48]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9]; o[9] = i[0] * i[10]; o[10] = i[0] * i[11]; o[11] = i[0] * i[12];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6]; o[18] = i[0] * i[7]; o[19] = i[0] * i[8]; o[20] = i[0] * i[9]; o[21] = i[0] * i[10]; o[22] = i[0] * i[11]; o[23] = i[0] * i[12];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; o[32] = i[0] * i[9]; o[33] = i[0] * i[10]; o[34] = i[0] * i[11]; o[35] = i[0] * i[12];o[36] = i[0] * i[1]; o[37] = i[0] * i[2]; o[38] = i[0] * i[3]; o[39] = i[0] * i[4]; o[40] = i[0] * i[5]; o[41] = i[0] * i[6]; o[42] = i[0] * i[7]; o[43] = i[0] * i[8]; o[44] = i[0] * i[9]; o[45] = i[0] * i[10]; o[46] = i[0] * i[11]; o[47] = i[0] * i[12]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 32]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4]; o[12] = i[0] * i[5]; o[13] = i[0] * i[6]; o[14] = i[0] * i[7]; o[15] = i[0] * i[8];o[16] = i[0] * i[1]; o[17] = i[0] * i[2]; o[18] = i[0] * i[3]; o[19] = i[0] * i[4]; o[20] = i[0] * i[5]; o[21] = i[0] * i[6]; o[22] = i[0] * i[7]; o[23] = i[0] * i[8];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 48]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9]; o[9] = i[0] * i[10]; o[10] = i[0] * i[11]; o[11] = i[0] * i[12];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6]; o[18] = i[0] * i[7]; o[19] = i[0] * i[8]; o[20] = i[0] * i[9]; o[21] = i[0] * i[10]; o[22] = i[0] * i[11]; o[23] = i[0] * i[12];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; o[32] = i[0] * i[9]; o[33] = i[0] * i[10]; o[34] = i[0] * i[11]; o[35] = i[0] * i[12];o[36] = i[0] * i[1]; o[37] = i[0] * i[2]; o[38] = i[0] * i[3]; o[39] = i[0] * i[4]; o[40] = i[0] * i[5]; o[41] = i[0] * i[6]; o[42] = i[0] * i[7]; o[43] = i[0] * i[8]; o[44] = i[0] * i[9]; o[45] = i[0] * i[10]; o[46] = i[0] * i[11]; o[47] = i[0] * i[12]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 64]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9]; o[9] = i[0] * i[10]; o[10] = i[0] * i[11]; o[11] = i[0] * i[12]; o[12] = i[0] * i[13]; o[13] = i[0] * i[14]; o[14] = i[0] * i[15]; o[15] = i[0] * i[16];o[16] = i[0] * i[1]; o[17] = i[0] * i[2]; o[18] = i[0] * i[3]; o[19] = i[0] * i[4]; o[20] = i[0] * i[5]; o[21] = i[0] * i[6]; o[22] = i[0] * i[7]; o[23] = i[0] * i[8]; o[24] = i[0] * i[9]; o[25] = i[0] * i[10]; o[26] = i[0] * i[11]; o[27] = i[0] * i[12]; o[28] = i[0] * i[13]; o[29] = i[0] * i[14]; o[30] = i[0] * i[15]; o[31] = i[0] * i[16];o[32] = i[0] * i[1]; o[33] = i[0] * i[2]; o[34] = i[0] * i[3]; o[35] = i[0] * i[4]; o[36] = i[0] * i[5]; o[37] = i[0] * i[6]; o[38] = i[0] * i[7]; o[39] = i[0] * i[8]; o[40] = i[0] * i[9]; o[41] = i[0] * i[10]; o[42] = i[0] * i[11]; o[43] = i[0] * i[12]; o[44] = i[0] * i[13]; o[45] = i[0] * i[14]; o[46] = i[0] * i[15]; o[47] = i[0] * i[16];o[48] = i[0] * i[1]; o[49] = i[0] * i[2]; o[50] = i[0] * i[3]; o[51] = i[0] * i[4]; o[52] = i[0] * i[5]; o[53] = i[0] * i[6]; o[54] = i[0] * i[7]; o[55] = i[0] * i[8]; o[56] = i[0] * i[9]; o[57] = i[0] * i[10]; o[58] = i[0] * i[11]; o[59] = i[0] * i[12]; o[60] = i[0] * i[13]; o[61] = i[0] * i[14]; o[62] = i[0] * i[15]; o[63] = i[0] * i[16]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    o[0] = i[0] + i[1]; o[1] = i[2];o[2] = i[0] + i[1]; o[3] = i[2];o[4] = i[0] + i[1]; o[5] = i[2];o[6] = i[0] + i[1]; o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_f32(i: &[f32; 3], o: &mut [f32; 4]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_f32(i: &[f32; 3], o: &mut [f32; 4]) -> bool {
    o[0] = -i[2];o[1] = -i[2];o[2] = -i[2];o[3] = -i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    o[0] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[1] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]);o[2] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[3] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]);o[4] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[5] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]);o[6] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[7] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector1_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    o[0] = i[0] * i[1];o[1] = i[0] * i[1];o[2] = i[0] * i[1];o[3] = i[0] * i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = i[0] * i[1];o[1] = i[0] * i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    o[0] = i[0] * i[1];o[1] = i[0] * i[1];o[2] = i[0] * i[1];o[3] = i[0] * i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x2_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x3_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector2_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point2_f64(i: &[f64; 3], o: &mut [f64; 4]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x1_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3]; o[9] = i[0] * i[4]; o[10] = i[0] * i[5]; o[11] = i[0] * i[6];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6];o[18] = i[0] * i[1]; o[19] = i[0] * i[2]; o[20] = i[0] * i[3]; o[21] = i[0] * i[4]; o[22] = i[0] * i[5]; o[23] = i[0] * i[6]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix2x4_f64(i: &[f64; 9], o: &mut [f64; 32]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4]; o[12] = i[0] * i[5]; o[13] = i[0] * i[6]; o[14] = i[0] * i[7]; o[15] = i[0] * i[8];o[16] = i[0] * i[1]; o[17] = i[0] * i[2]; o[18] = i[0] * i[3]; o[19] = i[0] * i[4]; o[20] = i[0] * i[5]; o[21] = i[0] * i[6]; o[22] = i[0] * i[7]; o[23] = i[0] * i[8];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector3_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_point3_f64(i: &[f64; 4], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x1_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3];o[3] = i[0] * i[1]; o[4] = i[0] * i[2]; o[5] = i[0] * i[3];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; o[8] = i[0] * i[3]; o[9] = i[0] * i[4]; o[10] = i[0] * i[5]; o[11] = i[0] * i[6];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6];o[18] = i[0] * i[1]; o[19] = i[0] * i[2]; o[20] = i[0] * i[3]; o[21] = i[0] * i[4]; o[22] = i[0] * i[5]; o[23] = i[0] * i[6]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 36]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9];o[9] = i[0] * i[1]; o[10] = i[0] * i[2]; o[11] = i[0] * i[3]; o[12] = i[0] * i[4]; o[13] = i[0] * i[5]; o[14] = i[0] * i[6]; o[15] = i[0] * i[7]; o[16] = i[0] * i[8]; o[17] = i[0] * i[9];o[18] = i[0] * i[1]; o[19] = i[0] * i[2]; o[20] = i[0] * i[3]; o[21] = i[0] * i[4]; o[22] = i[0] * i[5]; o[23] = i[0] * i[6]; o[24] = i[0] * i[7]; o[25] = i[0] * i[8]; o[26] = i[0] * i[9];o[27] = i[0] * i[1]; o[28] = i[0] * i[2]; o[29] = i[0] * i[3]; o[30] = i[0] * i[4]; o[31] = i[0] * i[5]; o[32] = i[0] * i[6]; o[33] = i[0] * i[7]; o[34] = i[0] * i[8]; o[35] = i[0] * i[9]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix3x4_f64(i: &[f64; 13], o: &mut [f64; 48]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9]; o[9] = i[0] * i[10]; o[10] = i[0] * i[11]; o[11] = i[0] * i[12];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6]; o[18] = i[0] * i[7]; o[19] = i[0] * i[8]; o[20] = i[0] * i[9]; o[21] = i[0] * i[10]; o[22] = i[0] * i[11]; o[23] = i[0] * i[12];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; o[32] = i[0] * i[9]; o[33] = i[0] * i[10]; o[34] = i[0] * i[11]; o[35] = i[0] * i[12];o[36] = i[0] * i[1]; o[37] = i[0] * i[2]; o[38] = i[0] * i[3]; o[39] = i[0] * i[4]; o[40] = i[0] * i[5]; o[41] = i[0] * i[6]; o[42] = i[0] * i[7]; o[43] = i[0] * i[8]; o[44] = i[0] * i[9]; o[45] = i[0] * i[10]; o[46] = i[0] * i[11]; o[47] = i[0] * i[12]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_vector4_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x1_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 32]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4]; o[12] = i[0] * i[5]; o[13] = i[0] * i[6]; o[14] = i[0] * i[7]; o[15] = i[0] * i[8];o[16] = i[0] * i[1]; o[17] = i[0] * i[2]; o[18] = i[0] * i[3]; o[19] = i[0] * i[4]; o[20] = i[0] * i[5]; o[21] = i[0] * i[6]; o[22] = i[0] * i[7]; o[23] = i[0] * i[8];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 48]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9]; o[9] = i[0] * i[10]; o[10] = i[0] * i[11]; o[11] = i[0] * i[12];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; o[16] = i[0] * i[5]; o[17] = i[0] * i[6]; o[18] = i[0] * i[7]; o[19] = i[0] * i[8]; o[20] = i[0] * i[9]; o[21] = i[0] * i[10]; o[22] = i[0] * i[11]; o[23] = i[0] * i[12];o[24] = i[0] * i[1]; o[25] = i[0] * i[2]; o[26] = i[0] * i[3]; o[27] = i[0] * i[4]; o[28] = i[0] * i[5]; o[29] = i[0] * i[6]; o[30] = i[0] * i[7]; o[31] = i[0] * i[8]; o[32] = i[0] * i[9]; o[33] = i[0] * i[10]; o[34] = i[0] * i[11]; o[35] = i[0] * i[12];o[36] = i[0] * i[1]; o[37] = i[0] * i[2]; o[38] = i[0] * i[3]; o[39] = i[0] * i[4]; o[40] = i[0] * i[5]; o[41] = i[0] * i[6]; o[42] = i[0] * i[7]; o[43] = i[0] * i[8]; o[44] = i[0] * i[9]; o[45] = i[0] * i[10]; o[46] = i[0] * i[11]; o[47] = i[0] * i[12]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 64]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4]; o[4] = i[0] * i[5]; o[5] = i[0] * i[6]; o[6] = i[0] * i[7]; o[7] = i[0] * i[8]; o[8] = i[0] * i[9]; o[9] = i[0] * i[10]; o[10] = i[0] * i[11]; o[11] = i[0] * i[12]; o[12] = i[0] * i[13]; o[13] = i[0] * i[14]; o[14] = i[0] * i[15]; o[15] = i[0] * i[16];o[16] = i[0] * i[1]; o[17] = i[0] * i[2]; o[18] = i[0] * i[3]; o[19] = i[0] * i[4]; o[20] = i[0] * i[5]; o[21] = i[0] * i[6]; o[22] = i[0] * i[7]; o[23] = i[0] * i[8]; o[24] = i[0] * i[9]; o[25] = i[0] * i[10]; o[26] = i[0] * i[11]; o[27] = i[0] * i[12]; o[28] = i[0] * i[13]; o[29] = i[0] * i[14]; o[30] = i[0] * i[15]; o[31] = i[0] * i[16];o[32] = i[0] * i[1]; o[33] = i[0] * i[2]; o[34] = i[0] * i[3]; o[35] = i[0] * i[4]; o[36] = i[0] * i[5]; o[37] = i[0] * i[6]; o[38] = i[0] * i[7]; o[39] = i[0] * i[8]; o[40] = i[0] * i[9]; o[41] = i[0] * i[10]; o[42] = i[0] * i[11]; o[43] = i[0] * i[12]; o[44] = i[0] * i[13]; o[45] = i[0] * i[14]; o[46] = i[0] * i[15]; o[47] = i[0] * i[16];o[48] = i[0] * i[1]; o[49] = i[0] * i[2]; o[50] = i[0] * i[3]; o[51] = i[0] * i[4]; o[52] = i[0] * i[5]; o[53] = i[0] * i[6]; o[54] = i[0] * i[7]; o[55] = i[0] * i[8]; o[56] = i[0] * i[9]; o[57] = i[0] * i[10]; o[58] = i[0] * i[11]; o[59] = i[0] * i[12]; o[60] = i[0] * i[13]; o[61] = i[0] * i[14]; o[62] = i[0] * i[15]; o[63] = i[0] * i[16]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_quaternion_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2]; o[2] = i[0] * i[3]; o[3] = i[0] * i[4];o[4] = i[0] * i[1]; o[5] = i[0] * i[2]; o[6] = i[0] * i[3]; o[7] = i[0] * i[4];o[8] = i[0] * i[1]; o[9] = i[0] * i[2]; o[10] = i[0] * i[3]; o[11] = i[0] * i[4];o[12] = i[0] * i[1]; o[13] = i[0] * i[2]; o[14] = i[0] * i[3]; o[15] = i[0] * i[4]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_mul_complex_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    o[0] = i[0] * i[1]; o[1] = i[0] * i[2];o[2] = i[0] * i[1]; o[3] = i[0] * i[2];o[4] = i[0] * i[1]; o[5] = i[0] * i[2];o[6] = i[0] * i[1]; o[7] = i[0] * i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_add_complex_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    o[0] = i[0] + i[1]; o[1] = i[2];o[2] = i[0] + i[1]; o[3] = i[2];o[4] = i[0] + i[1]; o[5] = i[2];o[6] = i[0] + i[1]; o[7] = i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_re_f64(i: &[f64; 3], o: &mut [f64; 4]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_magnitude_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    o[0] = 1;o[1] = 1;o[2] = 1;o[3] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_sub_complex_im_f64(i: &[f64; 3], o: &mut [f64; 4]) -> bool {
    o[0] = -i[2];o[1] = -i[2];o[2] = -i[2];o[3] = -i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C25_div_complex_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    o[0] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[1] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]);o[2] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[3] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]);o[4] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[5] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]);o[6] = (i[0] * i[1]) / (i[1] * i[1] + i[2] * i[2]); o[7] = -(i[0] * i[2]) / (i[1] * i[1] + i[2] * i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_floor_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::floorf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_ceil_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::ceilf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_round_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::roundf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_trunc_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::truncf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sin_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::sinf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_cos_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::cosf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_tan_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::tanf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_asin_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::asinf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_acos_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::acosf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_atan_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::atanf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sinh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::sinhf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_cosh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::coshf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_tanh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::tanhf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_asinh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::asinhf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_acosh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::acoshf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_atanh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::atanhf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_log2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::log2f(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_log10_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::log10f(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sqrt_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::sqrtf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_cbrt_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::cbrtf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_exp_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::expf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_exp2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::exp2f(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_ln_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::logf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_ln_1p_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::log1pf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_exp_m1_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::expm1f(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_fract_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = i[0] - libm::truncf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_recip_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = 1.0 / i[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sin_cos_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    o[0] = libm::sinf(i[0]); o[1] = libm::cosf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sinh_cosh_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    o[0] = libm::sinhf(i[0]); o[1] = libm::coshf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_hypot_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = libm::hypotf(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_atan2_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = libm::atan2f(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powf_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = libm::powf(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_log_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = libm::logf(i[0]) / libm::logf(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_mul_add_f32(i: &[f32; 3], o: &mut [f32; 1]) -> bool {
    o[0] = libm::fmaf(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_0_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_1_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m1_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_3_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m3_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_4_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m4_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_5_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m5_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_6_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m6_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_7_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m7_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_8_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m8_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_9_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m9_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_10_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m10_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_11_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m11_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_12_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m12_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_13_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m13_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_14_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m14_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_15_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m15_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_16_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m16_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_17_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m17_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_18_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m18_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_19_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m19_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_20_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m20_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_21_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m21_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_22_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m22_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_23_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m23_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_24_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m24_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_31_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m31_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_32_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m32_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_33_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m33_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_63_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m63_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_64_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m64_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_100_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m100_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_finite_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = ((b >> 23) & 255 != 255) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_infinite_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = (b & 0x7fffffff == 255 << 23) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_nan_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = (b & 0x7fffffff > 255 << 23) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_normal_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = ((b >> 23) & 255 != 255 && (b >> 23) & 255 != 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_subnormal_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = ((b >> 23) & 255 == 0 && b & 0x7fffffff != 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_sign_positive_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = (i[0].to_bits() >> 31 == 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_sign_negative_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = (i[0].to_bits() >> 31 != 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_f32(i: &[f32; 1], o: &mut [u32; 1]) -> bool {
    o[0] = i[0].to_bits() & 0x7fffffff; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_f32(i: &[f32; 2], o: &mut [u32; 1]) -> bool {
    o[0] = (i[0].to_bits() & 0x7fffffff) | (i[1].to_bits() & !0x7fffffff); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    let x = i[0]; o[0] = if x != x { x } else if x.to_bits() & !0x7fffffff == 0 { 1.0 } else { -1.0 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    let (x, y) = (i[0], i[1]); if x == 0.0 && y == 0.0 { return false; } o[0] = if x != x { y } else if y != y { x } else if x > y { x } else { y }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    let (x, y) = (i[0], i[1]); if x == 0.0 && y == 0.0 { return false; } o[0] = if x != x { y } else if y != y { x } else if x < y { x } else { y }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_f32(i: &[f32; 3], o: &mut [f32; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if !(a <= b) { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_constants_f32(i: &[f32; 1], o: &mut [f32; 17]) -> bool {
    o[0] = core::f32::consts::E; o[1] = core::f32::consts::FRAC_1_PI; o[2] = core::f32::consts::FRAC_1_SQRT_2; o[3] = core::f32::consts::FRAC_2_PI; o[4] = core::f32::consts::FRAC_2_SQRT_PI; o[5] = core::f32::consts::FRAC_PI_2; o[6] = core::f32::consts::FRAC_PI_3; o[7] = core::f32::consts::FRAC_PI_4; o[8] = core::f32::consts::FRAC_PI_6; o[9] = core::f32::consts::FRAC_PI_8; o[10] = core::f32::consts::LN_10; o[11] = core::f32::consts::LN_2; o[12] = core::f32::consts::LOG10_E; o[13] = core::f32::consts::LOG2_E; o[14] = core::f32::consts::PI; o[15] = core::f32::consts::SQRT_2; o[16] = core::f32::consts::TAU; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_limits_f32(i: &[f32; 1], o: &mut [u32; 8]) -> bool {
    let v: [f32; 8] = [f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::EPSILON, f32::EPSILON, f32::MIN, f32::MAX]; for k in 0..8 { o[k] = v[k].to_bits(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_nan_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_floor_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::floor(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_ceil_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::ceil(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_round_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::round(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_trunc_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::trunc(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sin_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::sin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_cos_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::cos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_tan_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::tan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_asin_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::asin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_acos_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::acos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_atan_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::atan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sinh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::sinh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_cosh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::cosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_tanh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::tanh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_asinh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::asinh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_acosh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::acosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_atanh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::atanh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_log2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::log2(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_log10_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::log10(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sqrt_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::sqrt(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_cbrt_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::cbrt(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_exp_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::exp(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_exp2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::exp2(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_ln_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::log(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_ln_1p_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::log1p(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_exp_m1_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::expm1(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_fract_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = i[0] - libm::trunc(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_recip_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = 1.0 / i[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sin_cos_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    o[0] = libm::sin(i[0]); o[1] = libm::cos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_sinh_cosh_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    o[0] = libm::sinh(i[0]); o[1] = libm::cosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_hypot_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = libm::hypot(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_atan2_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = libm::atan2(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powf_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = libm::pow(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_log_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = libm::log(i[0]) / libm::log(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_mul_add_f64(i: &[f64; 3], o: &mut [f64; 1]) -> bool {
    o[0] = libm::fma(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_0_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_1_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m1_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_3_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m3_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_4_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m4_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_5_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m5_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_6_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m6_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_7_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m7_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_8_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m8_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_9_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m9_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_10_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m10_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_11_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m11_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_12_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m12_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_13_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m13_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_14_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m14_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_15_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m15_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_16_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m16_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_17_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m17_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_18_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m18_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_19_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m19_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_20_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m20_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_21_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m21_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_22_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m22_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_23_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m23_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_24_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m24_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_31_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m31_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_32_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m32_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_33_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m33_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_63_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m63_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_64_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m64_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_100_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_powi_m100_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = 1.0 / (x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x * x); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_finite_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = ((b >> 52) & 2047 != 2047) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_infinite_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = (b & 0x7fffffffffffffff == 2047 << 52) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_nan_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = (b & 0x7fffffffffffffff > 2047 << 52) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_normal_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = ((b >> 52) & 2047 != 2047 && (b >> 52) & 2047 != 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_subnormal_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let b = i[0].to_bits(); o[0] = ((b >> 52) & 2047 == 0 && b & 0x7fffffffffffffff != 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_sign_positive_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = (i[0].to_bits() >> 63 == 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_is_sign_negative_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = (i[0].to_bits() >> 63 != 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_f64(i: &[f64; 1], o: &mut [u64; 1]) -> bool {
    o[0] = i[0].to_bits() & 0x7fffffffffffffff; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_f64(i: &[f64; 2], o: &mut [u64; 1]) -> bool {
    o[0] = (i[0].to_bits() & 0x7fffffffffffffff) | (i[1].to_bits() & !0x7fffffffffffffff); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    let x = i[0]; o[0] = if x != x { x } else if x.to_bits() & !0x7fffffffffffffff == 0 { 1.0 } else { -1.0 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    let (x, y) = (i[0], i[1]); if x == 0.0 && y == 0.0 { return false; } o[0] = if x != x { y } else if y != y { x } else if x > y { x } else { y }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    let (x, y) = (i[0], i[1]); if x == 0.0 && y == 0.0 { return false; } o[0] = if x != x { y } else if y != y { x } else if x < y { x } else { y }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_f64(i: &[f64; 3], o: &mut [f64; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if !(a <= b) { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_constants_f64(i: &[f64; 1], o: &mut [f64; 17]) -> bool {
    o[0] = core::f64::consts::E; o[1] = core::f64::consts::FRAC_1_PI; o[2] = core::f64::consts::FRAC_1_SQRT_2; o[3] = core::f64::consts::FRAC_2_PI; o[4] = core::f64::consts::FRAC_2_SQRT_PI; o[5] = core::f64::consts::FRAC_PI_2; o[6] = core::f64::consts::FRAC_PI_3; o[7] = core::f64::consts::FRAC_PI_4; o[8] = core::f64::consts::FRAC_PI_6; o[9] = core::f64::consts::FRAC_PI_8; o[10] = core::f64::consts::LN_10; o[11] = core::f64::consts::LN_2; o[12] = core::f64::consts::LOG10_E; o[13] = core::f64::consts::LOG2_E; o[14] = core::f64::consts::PI; o[15] = core::f64::consts::SQRT_2; o[16] = core::f64::consts::TAU; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_limits_f64(i: &[f64; 1], o: &mut [u64; 8]) -> bool {
    let v: [f64; 8] = [f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::EPSILON, f64::EPSILON, f64::MIN, f64::MAX]; for k in 0..8 { o[k] = v[k].to_bits(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_nan_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = 1; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signs_i8(i: &[i8; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_i8(i: &[i8; 1], o: &mut [i8; 1]) -> bool {
    o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_i8(i: &[i8; 1], o: &mut [i8; 1]) -> bool {
    o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_i8(i: &[i8; 2], o: &mut [i8; 1]) -> bool {
    let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_i8(i: &[i8; 2], o: &mut [i8; 1]) -> bool {
    o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_i8(i: &[i8; 2], o: &mut [i8; 1]) -> bool {
    o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_i8(i: &[i8; 3], o: &mut [i8; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_bounds_i8(i: &[i8; 1], o: &mut [i8; 2]) -> bool {
    o[0] = i8::MIN; o[1] = i8::MAX; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signs_i16(i: &[i16; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_i16(i: &[i16; 1], o: &mut [i16; 1]) -> bool {
    o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_i16(i: &[i16; 1], o: &mut [i16; 1]) -> bool {
    o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_i16(i: &[i16; 2], o: &mut [i16; 1]) -> bool {
    let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_i16(i: &[i16; 2], o: &mut [i16; 1]) -> bool {
    o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_i16(i: &[i16; 2], o: &mut [i16; 1]) -> bool {
    o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_i16(i: &[i16; 3], o: &mut [i16; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_bounds_i16(i: &[i16; 1], o: &mut [i16; 2]) -> bool {
    o[0] = i16::MIN; o[1] = i16::MAX; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signs_i32(i: &[i32; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_i32(i: &[i32; 1], o: &mut [i32; 1]) -> bool {
    o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_i32(i: &[i32; 1], o: &mut [i32; 1]) -> bool {
    o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_i32(i: &[i32; 2], o: &mut [i32; 1]) -> bool {
    let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_i32(i: &[i32; 2], o: &mut [i32; 1]) -> bool {
    o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_i32(i: &[i32; 2], o: &mut [i32; 1]) -> bool {
    o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_i32(i: &[i32; 3], o: &mut [i32; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_bounds_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    o[0] = i32::MIN; o[1] = i32::MAX; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signs_i64(i: &[i64; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_i64(i: &[i64; 1], o: &mut [i64; 1]) -> bool {
    o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_i64(i: &[i64; 1], o: &mut [i64; 1]) -> bool {
    o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_i64(i: &[i64; 2], o: &mut [i64; 1]) -> bool {
    let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_i64(i: &[i64; 2], o: &mut [i64; 1]) -> bool {
    o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_i64(i: &[i64; 2], o: &mut [i64; 1]) -> bool {
    o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_i64(i: &[i64; 3], o: &mut [i64; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_bounds_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    o[0] = i64::MIN; o[1] = i64::MAX; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signs_i128(i: &[i128; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_i128(i: &[i128; 1], o: &mut [i128; 1]) -> bool {
    o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_i128(i: &[i128; 1], o: &mut [i128; 1]) -> bool {
    o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_i128(i: &[i128; 2], o: &mut [i128; 1]) -> bool {
    let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_i128(i: &[i128; 2], o: &mut [i128; 1]) -> bool {
    o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_i128(i: &[i128; 2], o: &mut [i128; 1]) -> bool {
    o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_i128(i: &[i128; 3], o: &mut [i128; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_bounds_i128(i: &[i128; 1], o: &mut [i128; 2]) -> bool {
    o[0] = i128::MIN; o[1] = i128::MAX; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signs_isize(i: &[isize; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_abs_isize(i: &[isize; 1], o: &mut [isize; 1]) -> bool {
    o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_signum_isize(i: &[isize; 1], o: &mut [isize; 1]) -> bool {
    o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_copysign_isize(i: &[isize; 2], o: &mut [isize; 1]) -> bool {
    let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_max_isize(i: &[isize; 2], o: &mut [isize; 1]) -> bool {
    o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_min_isize(i: &[isize; 2], o: &mut [isize; 1]) -> bool {
    o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_clamp_isize(i: &[isize; 3], o: &mut [isize; 1]) -> bool {
    let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C24_bounds_isize(i: &[isize; 1], o: &mut [isize; 2]) -> bool {
    o[0] = isize::MIN; o[1] = isize::MAX; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_acosh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && y.is_nan() { o[0] = inf; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = inf; o[1] = if x > 0.0 { q } else { 3.0 * q }.copysign(y); }
        else if x.is_infinite() { o[0] = inf; if x > 0.0 { o[1] = 0.0; } else if y != 0.0 { o[1] = pi.copysign(y); } else { o[3] = pi; } }
        else if x.is_nan() && y.is_infinite() { o[0] = inf; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { o[0] = inf; o[1] = (2.0 * q).copysign(y); }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_acos_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && y.is_nan() { o[0] = nan; o[3] = inf; }
        else if x.is_infinite() && y.is_infinite() { o[0] = if x > 0.0 { q } else { 3.0 * q }; o[1] = -y; }
        else if x.is_infinite() { o[0] = if x > 0.0 { 0.0 } else { pi }; if y != 0.0 { o[1] = if y > 0.0 { -inf } else { inf }; } else { o[3] = inf; } }
        else if x.is_nan() && y.is_infinite() { o[0] = nan; o[1] = -y; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { o[0] = 2.0 * q; o[1] = -y; }
        else if x == 0.0 && y == 0.0 { o[0] = 2.0 * q; o[1] = 0.0; }
        else if x == 0.0 && y.is_nan() { o[0] = 2.0 * q; o[1] = nan; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_cosh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = nan; o[1] = 0.0; }
        else if x == 0.0 && y == 0.0 { o[0] = 1.0; o[1] = 0.0; }
        else if x.is_infinite() && y == 0.0 { o[0] = inf; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_cos_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = nan; o[1] = 0.0; }
        else if x == 0.0 && y == 0.0 { o[0] = 1.0; o[1] = 0.0; }
        else if x.is_infinite() && y == 0.0 { o[0] = inf; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_sinh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = 0.0; o[1] = nan; }
        else if x.is_infinite() && y == 0.0 { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_sin_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = 0.0; o[1] = nan; }
        else if x.is_infinite() && y == 0.0 { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_asinh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && y.is_nan() { o[0] = x; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = x; o[1] = q.copysign(y); }
        else if x.is_infinite() { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y.is_infinite() { o[2] = inf; o[1] = nan; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { if x == 0.0 { o[2] = inf; } else { o[0] = if x > 0.0 { inf } else { -inf }; } o[1] = (2.0 * q).copysign(y); }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_asin_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() && y.is_nan() { o[0] = x; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = x; o[1] = q.copysign(y); }
        else if x.is_infinite() { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y.is_infinite() { o[2] = inf; o[1] = nan; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { if x == 0.0 { o[2] = inf; } else { o[0] = if x > 0.0 { inf } else { -inf }; } o[1] = (2.0 * q).copysign(y); }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_tanh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() { o[0] = if x > 0.0 { 1.0 } else { -1.0 }; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_tan_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() { o[0] = if x > 0.0 { 1.0 } else { -1.0 }; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_atanh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if y.is_infinite() { o[0] = 0.0; o[1] = (2.0 * q).copysign(y); }
        else if y.is_nan() && (x.is_infinite() || x == 0.0) { o[0] = 0.0; o[1] = nan; }
        else if y.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_infinite() { o[0] = 0.0; if y != 0.0 { o[1] = (2.0 * q).copysign(y); } else { o[3] = 2.0 * q; } }
        else if y == 0.0 && (x == 1.0 || x == -1.0) { o[0] = if x > 0.0 { inf } else { -inf }; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_atan_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let (inf, nan, pi, q) = (f32::INFINITY, f32::NAN, core::f32::consts::PI, core::f32::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if y.is_infinite() { o[0] = 0.0; o[1] = (2.0 * q).copysign(y); }
        else if y.is_nan() && (x.is_infinite() || x == 0.0) { o[0] = 0.0; o[1] = nan; }
        else if y.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_infinite() { o[0] = 0.0; if y != 0.0 { o[1] = (2.0 * q).copysign(y); } else { o[3] = 2.0 * q; } }
        else if y == 0.0 && (x == 1.0 || x == -1.0) { o[0] = if x > 0.0 { inf } else { -inf }; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_classify_f32(i: &[f32; 2], o: &mut [u8; 3]) -> bool {
    let (x, y) = (i[0], i[1]); let n = x.is_nan() || y.is_nan(); let f = x.is_infinite() || y.is_infinite(); o[0] = n as u8; o[1] = (f && !n) as u8; o[2] = (!f && !n) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_radians_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_degrees_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector1_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector2_f32(i: &[f32; 2], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector3_f32(i: &[f32; 3], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector4_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector5_f32(i: &[f32; 5], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector9_f32(i: &[f32; 9], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_quaternion_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix1x1_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix3x3_f32(i: &[f32; 9], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix4x4_f32(i: &[f32; 16], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); f &= i[9].is_finite(); f &= i[10].is_finite(); f &= i[11].is_finite(); f &= i[12].is_finite(); f &= i[13].is_finite(); f &= i[14].is_finite(); f &= i[15].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix2x3_f32(i: &[f32; 6], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix3x2_f32(i: &[f32; 6], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix4x3_f32(i: &[f32; 12], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); f &= i[9].is_finite(); f &= i[10].is_finite(); f &= i[11].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix1x4_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix5x3_f32(i: &[f32; 15], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); f &= i[9].is_finite(); f &= i[10].is_finite(); f &= i[11].is_finite(); f &= i[12].is_finite(); f &= i[13].is_finite(); f &= i[14].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_acosh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && y.is_nan() { o[0] = inf; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = inf; o[1] = if x > 0.0 { q } else { 3.0 * q }.copysign(y); }
        else if x.is_infinite() { o[0] = inf; if x > 0.0 { o[1] = 0.0; } else if y != 0.0 { o[1] = pi.copysign(y); } else { o[3] = pi; } }
        else if x.is_nan() && y.is_infinite() { o[0] = inf; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { o[0] = inf; o[1] = (2.0 * q).copysign(y); }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_acos_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && y.is_nan() { o[0] = nan; o[3] = inf; }
        else if x.is_infinite() && y.is_infinite() { o[0] = if x > 0.0 { q } else { 3.0 * q }; o[1] = -y; }
        else if x.is_infinite() { o[0] = if x > 0.0 { 0.0 } else { pi }; if y != 0.0 { o[1] = if y > 0.0 { -inf } else { inf }; } else { o[3] = inf; } }
        else if x.is_nan() && y.is_infinite() { o[0] = nan; o[1] = -y; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { o[0] = 2.0 * q; o[1] = -y; }
        else if x == 0.0 && y == 0.0 { o[0] = 2.0 * q; o[1] = 0.0; }
        else if x == 0.0 && y.is_nan() { o[0] = 2.0 * q; o[1] = nan; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_cosh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = nan; o[1] = 0.0; }
        else if x == 0.0 && y == 0.0 { o[0] = 1.0; o[1] = 0.0; }
        else if x.is_infinite() && y == 0.0 { o[0] = inf; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_cos_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = nan; o[1] = 0.0; }
        else if x == 0.0 && y == 0.0 { o[0] = 1.0; o[1] = 0.0; }
        else if x.is_infinite() && y == 0.0 { o[0] = inf; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_sinh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = 0.0; o[1] = nan; }
        else if x.is_infinite() && y == 0.0 { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_sin_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = 0.0; o[1] = nan; }
        else if x.is_infinite() && y == 0.0 { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_asinh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() && y.is_nan() { o[0] = x; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = x; o[1] = q.copysign(y); }
        else if x.is_infinite() { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y.is_infinite() { o[2] = inf; o[1] = nan; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { if x == 0.0 { o[2] = inf; } else { o[0] = if x > 0.0 { inf } else { -inf }; } o[1] = (2.0 * q).copysign(y); }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_asin_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() && y.is_nan() { o[0] = x; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = x; o[1] = q.copysign(y); }
        else if x.is_infinite() { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y.is_infinite() { o[2] = inf; o[1] = nan; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { if x == 0.0 { o[2] = inf; } else { o[0] = if x > 0.0 { inf } else { -inf }; } o[1] = (2.0 * q).copysign(y); }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_tanh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if x.is_infinite() { o[0] = if x > 0.0 { 1.0 } else { -1.0 }; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_tan_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if x.is_infinite() { o[0] = if x > 0.0 { 1.0 } else { -1.0 }; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_atanh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (i[0], i[1]); if y.is_infinite() { o[0] = 0.0; o[1] = (2.0 * q).copysign(y); }
        else if y.is_nan() && (x.is_infinite() || x == 0.0) { o[0] = 0.0; o[1] = nan; }
        else if y.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_infinite() { o[0] = 0.0; if y != 0.0 { o[1] = (2.0 * q).copysign(y); } else { o[3] = 2.0 * q; } }
        else if y == 0.0 && (x == 1.0 || x == -1.0) { o[0] = if x > 0.0 { inf } else { -inf }; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_atan_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let (inf, nan, pi, q) = (f64::INFINITY, f64::NAN, core::f64::consts::PI, core::f64::consts::FRAC_PI_4); let (x, y) = (-i[1], i[0]); if y.is_infinite() { o[0] = 0.0; o[1] = (2.0 * q).copysign(y); }
        else if y.is_nan() && (x.is_infinite() || x == 0.0) { o[0] = 0.0; o[1] = nan; }
        else if y.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_infinite() { o[0] = 0.0; if y != 0.0 { o[1] = (2.0 * q).copysign(y); } else { o[3] = 2.0 * q; } }
        else if y == 0.0 && (x == 1.0 || x == -1.0) { o[0] = if x > 0.0 { inf } else { -inf }; o[1] = 0.0; }
        else { return false; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_classify_f64(i: &[f64; 2], o: &mut [u8; 3]) -> bool {
    let (x, y) = (i[0], i[1]); let n = x.is_nan() || y.is_nan(); let f = x.is_infinite() || y.is_infinite(); o[0] = n as u8; o[1] = (f && !n) as u8; o[2] = (!f && !n) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_radians_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_degrees_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector1_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector2_f64(i: &[f64; 2], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector3_f64(i: &[f64; 3], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector4_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector5_f64(i: &[f64; 5], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_vector9_f64(i: &[f64; 9], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_quaternion_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix1x1_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix3x3_f64(i: &[f64; 9], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix4x4_f64(i: &[f64; 16], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); f &= i[9].is_finite(); f &= i[10].is_finite(); f &= i[11].is_finite(); f &= i[12].is_finite(); f &= i[13].is_finite(); f &= i[14].is_finite(); f &= i[15].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix2x3_f64(i: &[f64; 6], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix3x2_f64(i: &[f64; 6], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix4x3_f64(i: &[f64; 12], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); f &= i[9].is_finite(); f &= i[10].is_finite(); f &= i[11].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix1x4_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C27_is_finite_matrix5x3_f64(i: &[f64; 15], o: &mut [u8; 1]) -> bool {
    let mut f = true; f &= i[0].is_finite(); f &= i[1].is_finite(); f &= i[2].is_finite(); f &= i[3].is_finite(); f &= i[4].is_finite(); f &= i[5].is_finite(); f &= i[6].is_finite(); f &= i[7].is_finite(); f &= i[8].is_finite(); f &= i[9].is_finite(); f &= i[10].is_finite(); f &= i[11].is_finite(); f &= i[12].is_finite(); f &= i[13].is_finite(); f &= i[14].is_finite(); o[0] = f as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_u8(i: &[u8; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u8_u8(i: &[u8; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_u16(i: &[u8; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_u32(i: &[u8; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u8_u32(i: &[u8; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_u64(i: &[u8; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u8_u64(i: &[u8; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_u128(i: &[u8; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_usize(i: &[u8; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_i8(i: &[u8; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u8_i8(i: &[u8; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_i16(i: &[u8; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_i32(i: &[u8; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u8_i32(i: &[u8; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_i64(i: &[u8; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u8_i64(i: &[u8; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_i128(i: &[u8; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_isize(i: &[u8; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as u8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_f32(i: &[u8; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u8_f64(i: &[u8; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_u8(i: &[u16; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u16_u8(i: &[u16; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_u16(i: &[u16; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_u32(i: &[u16; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u16_u32(i: &[u16; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_u64(i: &[u16; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u16_u64(i: &[u16; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_u128(i: &[u16; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_usize(i: &[u16; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_i8(i: &[u16; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u16_i8(i: &[u16; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_i16(i: &[u16; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_i32(i: &[u16; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u16_i32(i: &[u16; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_i64(i: &[u16; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u16_i64(i: &[u16; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_i128(i: &[u16; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_isize(i: &[u16; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as u16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_f32(i: &[u16; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u16_f64(i: &[u16; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_u8(i: &[u32; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u32_u8(i: &[u32; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_u16(i: &[u32; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_u32(i: &[u32; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u32_u32(i: &[u32; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_u64(i: &[u32; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u32_u64(i: &[u32; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_u128(i: &[u32; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_usize(i: &[u32; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_i8(i: &[u32; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u32_i8(i: &[u32; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_i16(i: &[u32; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_i32(i: &[u32; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u32_i32(i: &[u32; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_i64(i: &[u32; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u32_i64(i: &[u32; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_i128(i: &[u32; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_isize(i: &[u32; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as u32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_f32(i: &[u32; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u32_f64(i: &[u32; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_u8(i: &[u64; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u64_u8(i: &[u64; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_u16(i: &[u64; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_u32(i: &[u64; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u64_u32(i: &[u64; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_u64(i: &[u64; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u64_u64(i: &[u64; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_u128(i: &[u64; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_usize(i: &[u64; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_i8(i: &[u64; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u64_i8(i: &[u64; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_i16(i: &[u64; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_i32(i: &[u64; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u64_i32(i: &[u64; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_i64(i: &[u64; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u64_i64(i: &[u64; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_i128(i: &[u64; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_isize(i: &[u64; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as u64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_f32(i: &[u64; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u64_f64(i: &[u64; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_u8(i: &[u128; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u128_u8(i: &[u128; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_u16(i: &[u128; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_u32(i: &[u128; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u128_u32(i: &[u128; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_u64(i: &[u128; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u128_u64(i: &[u128; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_u128(i: &[u128; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_usize(i: &[u128; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_i8(i: &[u128; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u128_i8(i: &[u128; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_i16(i: &[u128; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_i32(i: &[u128; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u128_i32(i: &[u128; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_i64(i: &[u128; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_u128_i64(i: &[u128; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_i128(i: &[u128; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_isize(i: &[u128; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as u128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_f32(i: &[u128; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_u128_f64(i: &[u128; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_u8(i: &[usize; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_usize_u8(i: &[usize; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_u16(i: &[usize; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_u32(i: &[usize; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_usize_u32(i: &[usize; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_u64(i: &[usize; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_usize_u64(i: &[usize; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_u128(i: &[usize; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_usize(i: &[usize; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_i8(i: &[usize; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_usize_i8(i: &[usize; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_i16(i: &[usize; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_i32(i: &[usize; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_usize_i32(i: &[usize; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_i64(i: &[usize; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_usize_i64(i: &[usize; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_i128(i: &[usize; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_isize(i: &[usize; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as usize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_f32(i: &[usize; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_usize_f64(i: &[usize; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_u8(i: &[i8; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i8_u8(i: &[i8; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_u16(i: &[i8; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_u32(i: &[i8; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i8_u32(i: &[i8; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_u64(i: &[i8; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i8_u64(i: &[i8; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_u128(i: &[i8; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_usize(i: &[i8; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_i8(i: &[i8; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i8_i8(i: &[i8; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_i16(i: &[i8; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_i32(i: &[i8; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i8_i32(i: &[i8; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_i64(i: &[i8; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i8_i64(i: &[i8; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_i128(i: &[i8; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_isize(i: &[i8; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as i8 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_f32(i: &[i8; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i8_f64(i: &[i8; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_u8(i: &[i16; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i16_u8(i: &[i16; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_u16(i: &[i16; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_u32(i: &[i16; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i16_u32(i: &[i16; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_u64(i: &[i16; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i16_u64(i: &[i16; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_u128(i: &[i16; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_usize(i: &[i16; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_i8(i: &[i16; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i16_i8(i: &[i16; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_i16(i: &[i16; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_i32(i: &[i16; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i16_i32(i: &[i16; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_i64(i: &[i16; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i16_i64(i: &[i16; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_i128(i: &[i16; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_isize(i: &[i16; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as i16 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_f32(i: &[i16; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i16_f64(i: &[i16; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_u8(i: &[i32; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i32_u8(i: &[i32; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_u16(i: &[i32; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_u32(i: &[i32; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i32_u32(i: &[i32; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_u64(i: &[i32; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i32_u64(i: &[i32; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_u128(i: &[i32; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_usize(i: &[i32; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_i8(i: &[i32; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i32_i8(i: &[i32; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_i16(i: &[i32; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_i32(i: &[i32; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i32_i32(i: &[i32; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_i64(i: &[i32; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i32_i64(i: &[i32; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_i128(i: &[i32; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_isize(i: &[i32; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as i32 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_f32(i: &[i32; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i32_f64(i: &[i32; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_u8(i: &[i64; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i64_u8(i: &[i64; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_u16(i: &[i64; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_u32(i: &[i64; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i64_u32(i: &[i64; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_u64(i: &[i64; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i64_u64(i: &[i64; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_u128(i: &[i64; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_usize(i: &[i64; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_i8(i: &[i64; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i64_i8(i: &[i64; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_i16(i: &[i64; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_i32(i: &[i64; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i64_i32(i: &[i64; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_i64(i: &[i64; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i64_i64(i: &[i64; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_i128(i: &[i64; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_isize(i: &[i64; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as i64 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_f32(i: &[i64; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i64_f64(i: &[i64; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_u8(i: &[i128; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i128_u8(i: &[i128; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_u16(i: &[i128; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_u32(i: &[i128; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i128_u32(i: &[i128; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_u64(i: &[i128; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i128_u64(i: &[i128; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_u128(i: &[i128; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_usize(i: &[i128; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_i8(i: &[i128; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i128_i8(i: &[i128; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_i16(i: &[i128; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_i32(i: &[i128; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i128_i32(i: &[i128; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_i64(i: &[i128; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_i128_i64(i: &[i128; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_i128(i: &[i128; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_isize(i: &[i128; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as i128 == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_f32(i: &[i128; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_i128_f64(i: &[i128; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_u8(i: &[isize; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_isize_u8(i: &[isize; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; let y = x as u8; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_u16(i: &[isize; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; let y = x as u16; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_u32(i: &[isize; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_isize_u32(i: &[isize; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; let y = x as u32; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_u64(i: &[isize; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_isize_u64(i: &[isize; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; let y = x as u64; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_u128(i: &[isize; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; let y = x as u128; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_usize(i: &[isize; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; let y = x as usize; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_i8(i: &[isize; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_isize_i8(i: &[isize; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; let y = x as i8; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_i16(i: &[isize; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; let y = x as i16; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_i32(i: &[isize; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_isize_i32(i: &[isize; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; let y = x as i32; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_i64(i: &[isize; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_isize_i64(i: &[isize; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; let y = x as i64; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_i128(i: &[isize; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; let y = x as i128; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_isize(i: &[isize; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; let y = x as isize; if y as isize == x && (y < 0) == (x < 0) { o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_f32(i: &[isize; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_isize_f64(i: &[isize; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_u8(i: &[f32; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1132462080) { let y = unsafe { x.to_int_unchecked::<u8>() }; o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f32_u8(i: &[f32; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1132462080) { let y = unsafe { x.to_int_unchecked::<u8>() }; o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_u16(i: &[f32; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1199570944) { let y = unsafe { x.to_int_unchecked::<u16>() }; o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_u32(i: &[f32; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1333788672) { let y = unsafe { x.to_int_unchecked::<u32>() }; o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f32_u32(i: &[f32; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1333788672) { let y = unsafe { x.to_int_unchecked::<u32>() }; o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_u64(i: &[f32; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1602224128) { let y = unsafe { x.to_int_unchecked::<u64>() }; o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f32_u64(i: &[f32; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1602224128) { let y = unsafe { x.to_int_unchecked::<u64>() }; o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_u128(i: &[f32; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(2139095040) { let y = unsafe { x.to_int_unchecked::<u128>() }; o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_usize(i: &[f32; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f32::from_bits(1602224128) { let y = unsafe { x.to_int_unchecked::<usize>() }; o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_i8(i: &[f32; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; if x > -f32::from_bits(1124073472) - 1.0 && x < f32::from_bits(1124073472) { let y = unsafe { x.to_int_unchecked::<i8>() }; o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f32_i8(i: &[f32; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; if x > -f32::from_bits(1124073472) - 1.0 && x < f32::from_bits(1124073472) { let y = unsafe { x.to_int_unchecked::<i8>() }; o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_i16(i: &[f32; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; if x > -f32::from_bits(1191182336) - 1.0 && x < f32::from_bits(1191182336) { let y = unsafe { x.to_int_unchecked::<i16>() }; o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_i32(i: &[f32; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; if x >= -f32::from_bits(1325400064) && x < f32::from_bits(1325400064) { let y = unsafe { x.to_int_unchecked::<i32>() }; o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f32_i32(i: &[f32; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; if x >= -f32::from_bits(1325400064) && x < f32::from_bits(1325400064) { let y = unsafe { x.to_int_unchecked::<i32>() }; o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_i64(i: &[f32; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; if x >= -f32::from_bits(1593835520) && x < f32::from_bits(1593835520) { let y = unsafe { x.to_int_unchecked::<i64>() }; o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f32_i64(i: &[f32; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; if x >= -f32::from_bits(1593835520) && x < f32::from_bits(1593835520) { let y = unsafe { x.to_int_unchecked::<i64>() }; o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_i128(i: &[f32; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; if x >= -f32::from_bits(2130706432) && x < f32::from_bits(2130706432) { let y = unsafe { x.to_int_unchecked::<i128>() }; o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_isize(i: &[f32; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; if x >= -f32::from_bits(1593835520) && x < f32::from_bits(1593835520) { let y = unsafe { x.to_int_unchecked::<isize>() }; o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_f32(i: &[f32; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f32_f64(i: &[f32; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_u8(i: &[f64; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4643211215818981376) { let y = unsafe { x.to_int_unchecked::<u8>() }; o[0] = y; o[1] = 1 as u8; o[2] = y; } else { o[1] = 0 as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f64_u8(i: &[f64; 1], o: &mut [u8; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4643211215818981376) { let y = unsafe { x.to_int_unchecked::<u8>() }; o[0] = y; o[1] = 1 as u8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_u16(i: &[f64; 1], o: &mut [u16; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4679240012837945344) { let y = unsafe { x.to_int_unchecked::<u16>() }; o[0] = y; o[1] = 1 as u16; o[2] = y; } else { o[1] = 0 as u16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_u32(i: &[f64; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4751297606875873280) { let y = unsafe { x.to_int_unchecked::<u32>() }; o[0] = y; o[1] = 1 as u32; o[2] = y; } else { o[1] = 0 as u32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f64_u32(i: &[f64; 1], o: &mut [u32; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4751297606875873280) { let y = unsafe { x.to_int_unchecked::<u32>() }; o[0] = y; o[1] = 1 as u32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_u64(i: &[f64; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4895412794951729152) { let y = unsafe { x.to_int_unchecked::<u64>() }; o[0] = y; o[1] = 1 as u64; o[2] = y; } else { o[1] = 0 as u64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f64_u64(i: &[f64; 1], o: &mut [u64; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4895412794951729152) { let y = unsafe { x.to_int_unchecked::<u64>() }; o[0] = y; o[1] = 1 as u64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_u128(i: &[f64; 1], o: &mut [u128; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(5183643171103440896) { let y = unsafe { x.to_int_unchecked::<u128>() }; o[0] = y; o[1] = 1 as u128; o[2] = y; } else { o[1] = 0 as u128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_usize(i: &[f64; 1], o: &mut [usize; 3]) -> bool {
    let x = i[0]; if x > -1.0 && x < f64::from_bits(4895412794951729152) { let y = unsafe { x.to_int_unchecked::<usize>() }; o[0] = y; o[1] = 1 as usize; o[2] = y; } else { o[1] = 0 as usize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_i8(i: &[f64; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; if x > -f64::from_bits(4638707616191610880) - 1.0 && x < f64::from_bits(4638707616191610880) { let y = unsafe { x.to_int_unchecked::<i8>() }; o[0] = y; o[1] = 1 as i8; o[2] = y; } else { o[1] = 0 as i8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f64_i8(i: &[f64; 1], o: &mut [i8; 3]) -> bool {
    let x = i[0]; if x > -f64::from_bits(4638707616191610880) - 1.0 && x < f64::from_bits(4638707616191610880) { let y = unsafe { x.to_int_unchecked::<i8>() }; o[0] = y; o[1] = 1 as i8; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_i16(i: &[f64; 1], o: &mut [i16; 3]) -> bool {
    let x = i[0]; if x > -f64::from_bits(4674736413210574848) - 1.0 && x < f64::from_bits(4674736413210574848) { let y = unsafe { x.to_int_unchecked::<i16>() }; o[0] = y; o[1] = 1 as i16; o[2] = y; } else { o[1] = 0 as i16; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_i32(i: &[f64; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; if x > -f64::from_bits(4746794007248502784) - 1.0 && x < f64::from_bits(4746794007248502784) { let y = unsafe { x.to_int_unchecked::<i32>() }; o[0] = y; o[1] = 1 as i32; o[2] = y; } else { o[1] = 0 as i32; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f64_i32(i: &[f64; 1], o: &mut [i32; 3]) -> bool {
    let x = i[0]; if x > -f64::from_bits(4746794007248502784) - 1.0 && x < f64::from_bits(4746794007248502784) { let y = unsafe { x.to_int_unchecked::<i32>() }; o[0] = y; o[1] = 1 as i32; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_i64(i: &[f64; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; if x >= -f64::from_bits(4890909195324358656) && x < f64::from_bits(4890909195324358656) { let y = unsafe { x.to_int_unchecked::<i64>() }; o[0] = y; o[1] = 1 as i64; o[2] = y; } else { o[1] = 0 as i64; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_or_panic_f64_i64(i: &[f64; 1], o: &mut [i64; 3]) -> bool {
    let x = i[0]; if x >= -f64::from_bits(4890909195324358656) && x < f64::from_bits(4890909195324358656) { let y = unsafe { x.to_int_unchecked::<i64>() }; o[0] = y; o[1] = 1 as i64; o[2] = y; } else { panic!(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_i128(i: &[f64; 1], o: &mut [i128; 3]) -> bool {
    let x = i[0]; if x >= -f64::from_bits(5179139571476070400) && x < f64::from_bits(5179139571476070400) { let y = unsafe { x.to_int_unchecked::<i128>() }; o[0] = y; o[1] = 1 as i128; o[2] = y; } else { o[1] = 0 as i128; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_isize(i: &[f64; 1], o: &mut [isize; 3]) -> bool {
    let x = i[0]; if x >= -f64::from_bits(4890909195324358656) && x < f64::from_bits(4890909195324358656) { let y = unsafe { x.to_int_unchecked::<isize>() }; o[0] = y; o[1] = 1 as isize; o[2] = y; } else { o[1] = 0 as isize; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_f32(i: &[f64; 1], o: &mut [f32; 3]) -> bool {
    let x = i[0]; o[0] = x as f32; o[1] = 1 as f32; o[2] = x as f32; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C08_cast_f64_f64(i: &[f64; 1], o: &mut [f64; 3]) -> bool {
    let x = i[0]; o[0] = x as f64; o[1] = 1 as f64; o[2] = x as f64; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x2_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x2_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 27]) -> bool {
    let s = i[9]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s);o[9] = i[0].wrapping_mul(s); o[10] = i[1].wrapping_mul(s); o[11] = i[2].wrapping_mul(s); o[12] = i[3].wrapping_mul(s); o[13] = i[4].wrapping_mul(s); o[14] = i[5].wrapping_mul(s); o[15] = i[6].wrapping_mul(s); o[16] = i[7].wrapping_mul(s); o[17] = i[8].wrapping_mul(s);o[18] = i[0].wrapping_mul(s); o[19] = i[1].wrapping_mul(s); o[20] = i[2].wrapping_mul(s); o[21] = i[3].wrapping_mul(s); o[22] = i[4].wrapping_mul(s); o[23] = i[5].wrapping_mul(s); o[24] = i[6].wrapping_mul(s); o[25] = i[7].wrapping_mul(s); o[26] = i[8].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 27]) -> bool {
    let s = i[9]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s;o[9] = i[0] / s; o[10] = i[1] / s; o[11] = i[2] / s; o[12] = i[3] / s; o[13] = i[4] / s; o[14] = i[5] / s; o[15] = i[6] / s; o[16] = i[7] / s; o[17] = i[8] / s;o[18] = i[0] / s; o[19] = i[1] / s; o[20] = i[2] / s; o[21] = i[3] / s; o[22] = i[4] / s; o[23] = i[5] / s; o[24] = i[6] / s; o[25] = i[7] / s; o[26] = i[8] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 27]) -> bool {
    let s = i[9]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s;o[9] = i[0] % s; o[10] = i[1] % s; o[11] = i[2] % s; o[12] = i[3] % s; o[13] = i[4] % s; o[14] = i[5] % s; o[15] = i[6] % s; o[16] = i[7] % s; o[17] = i[8] % s;o[18] = i[0] % s; o[19] = i[1] % s; o[20] = i[2] % s; o[21] = i[3] % s; o[22] = i[4] % s; o[23] = i[5] % s; o[24] = i[6] % s; o[25] = i[7] % s; o[26] = i[8] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x3_u8(i: &[u8; 18], o: &mut [u8; 54]) -> bool {
    o[0] = i[0].wrapping_add(i[9]); o[1] = i[1].wrapping_add(i[10]); o[2] = i[2].wrapping_add(i[11]); o[3] = i[3].wrapping_add(i[12]); o[4] = i[4].wrapping_add(i[13]); o[5] = i[5].wrapping_add(i[14]); o[6] = i[6].wrapping_add(i[15]); o[7] = i[7].wrapping_add(i[16]); o[8] = i[8].wrapping_add(i[17]);o[9] = i[0].wrapping_add(i[9]); o[10] = i[1].wrapping_add(i[10]); o[11] = i[2].wrapping_add(i[11]); o[12] = i[3].wrapping_add(i[12]); o[13] = i[4].wrapping_add(i[13]); o[14] = i[5].wrapping_add(i[14]); o[15] = i[6].wrapping_add(i[15]); o[16] = i[7].wrapping_add(i[16]); o[17] = i[8].wrapping_add(i[17]);o[18] = i[0].wrapping_add(i[9]); o[19] = i[1].wrapping_add(i[10]); o[20] = i[2].wrapping_add(i[11]); o[21] = i[3].wrapping_add(i[12]); o[22] = i[4].wrapping_add(i[13]); o[23] = i[5].wrapping_add(i[14]); o[24] = i[6].wrapping_add(i[15]); o[25] = i[7].wrapping_add(i[16]); o[26] = i[8].wrapping_add(i[17]);o[27] = i[0].wrapping_add(i[9]); o[28] = i[1].wrapping_add(i[10]); o[29] = i[2].wrapping_add(i[11]); o[30] = i[3].wrapping_add(i[12]); o[31] = i[4].wrapping_add(i[13]); o[32] = i[5].wrapping_add(i[14]); o[33] = i[6].wrapping_add(i[15]); o[34] = i[7].wrapping_add(i[16]); o[35] = i[8].wrapping_add(i[17]);o[36] = i[0].wrapping_add(i[9]); o[37] = i[1].wrapping_add(i[10]); o[38] = i[2].wrapping_add(i[11]); o[39] = i[3].wrapping_add(i[12]); o[40] = i[4].wrapping_add(i[13]); o[41] = i[5].wrapping_add(i[14]); o[42] = i[6].wrapping_add(i[15]); o[43] = i[7].wrapping_add(i[16]); o[44] = i[8].wrapping_add(i[17]);o[45] = i[0].wrapping_add(i[9]); o[46] = i[1].wrapping_add(i[10]); o[47] = i[2].wrapping_add(i[11]); o[48] = i[3].wrapping_add(i[12]); o[49] = i[4].wrapping_add(i[13]); o[50] = i[5].wrapping_add(i[14]); o[51] = i[6].wrapping_add(i[15]); o[52] = i[7].wrapping_add(i[16]); o[53] = i[8].wrapping_add(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x3_u8(i: &[u8; 18], o: &mut [u8; 54]) -> bool {
    o[0] = i[0].wrapping_sub(i[9]); o[1] = i[1].wrapping_sub(i[10]); o[2] = i[2].wrapping_sub(i[11]); o[3] = i[3].wrapping_sub(i[12]); o[4] = i[4].wrapping_sub(i[13]); o[5] = i[5].wrapping_sub(i[14]); o[6] = i[6].wrapping_sub(i[15]); o[7] = i[7].wrapping_sub(i[16]); o[8] = i[8].wrapping_sub(i[17]);o[9] = i[0].wrapping_sub(i[9]); o[10] = i[1].wrapping_sub(i[10]); o[11] = i[2].wrapping_sub(i[11]); o[12] = i[3].wrapping_sub(i[12]); o[13] = i[4].wrapping_sub(i[13]); o[14] = i[5].wrapping_sub(i[14]); o[15] = i[6].wrapping_sub(i[15]); o[16] = i[7].wrapping_sub(i[16]); o[17] = i[8].wrapping_sub(i[17]);o[18] = i[0].wrapping_sub(i[9]); o[19] = i[1].wrapping_sub(i[10]); o[20] = i[2].wrapping_sub(i[11]); o[21] = i[3].wrapping_sub(i[12]); o[22] = i[4].wrapping_sub(i[13]); o[23] = i[5].wrapping_sub(i[14]); o[24] = i[6].wrapping_sub(i[15]); o[25] = i[7].wrapping_sub(i[16]); o[26] = i[8].wrapping_sub(i[17]);o[27] = i[0].wrapping_sub(i[9]); o[28] = i[1].wrapping_sub(i[10]); o[29] = i[2].wrapping_sub(i[11]); o[30] = i[3].wrapping_sub(i[12]); o[31] = i[4].wrapping_sub(i[13]); o[32] = i[5].wrapping_sub(i[14]); o[33] = i[6].wrapping_sub(i[15]); o[34] = i[7].wrapping_sub(i[16]); o[35] = i[8].wrapping_sub(i[17]);o[36] = i[0].wrapping_sub(i[9]); o[37] = i[1].wrapping_sub(i[10]); o[38] = i[2].wrapping_sub(i[11]); o[39] = i[3].wrapping_sub(i[12]); o[40] = i[4].wrapping_sub(i[13]); o[41] = i[5].wrapping_sub(i[14]); o[42] = i[6].wrapping_sub(i[15]); o[43] = i[7].wrapping_sub(i[16]); o[44] = i[8].wrapping_sub(i[17]);o[45] = i[0].wrapping_sub(i[9]); o[46] = i[1].wrapping_sub(i[10]); o[47] = i[2].wrapping_sub(i[11]); o[48] = i[3].wrapping_sub(i[12]); o[49] = i[4].wrapping_sub(i[13]); o[50] = i[5].wrapping_sub(i[14]); o[51] = i[6].wrapping_sub(i[15]); o[52] = i[7].wrapping_sub(i[16]); o[53] = i[8].wrapping_sub(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 48]) -> bool {
    let s = i[16]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s); o[12] = i[12].wrapping_mul(s); o[13] = i[13].wrapping_mul(s); o[14] = i[14].wrapping_mul(s); o[15] = i[15].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); o[24] = i[8].wrapping_mul(s); o[25] = i[9].wrapping_mul(s); o[26] = i[10].wrapping_mul(s); o[27] = i[11].wrapping_mul(s); o[28] = i[12].wrapping_mul(s); o[29] = i[13].wrapping_mul(s); o[30] = i[14].wrapping_mul(s); o[31] = i[15].wrapping_mul(s);o[32] = i[0].wrapping_mul(s); o[33] = i[1].wrapping_mul(s); o[34] = i[2].wrapping_mul(s); o[35] = i[3].wrapping_mul(s); o[36] = i[4].wrapping_mul(s); o[37] = i[5].wrapping_mul(s); o[38] = i[6].wrapping_mul(s); o[39] = i[7].wrapping_mul(s); o[40] = i[8].wrapping_mul(s); o[41] = i[9].wrapping_mul(s); o[42] = i[10].wrapping_mul(s); o[43] = i[11].wrapping_mul(s); o[44] = i[12].wrapping_mul(s); o[45] = i[13].wrapping_mul(s); o[46] = i[14].wrapping_mul(s); o[47] = i[15].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 48]) -> bool {
    let s = i[16]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s; o[12] = i[12] / s; o[13] = i[13] / s; o[14] = i[14] / s; o[15] = i[15] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; o[24] = i[8] / s; o[25] = i[9] / s; o[26] = i[10] / s; o[27] = i[11] / s; o[28] = i[12] / s; o[29] = i[13] / s; o[30] = i[14] / s; o[31] = i[15] / s;o[32] = i[0] / s; o[33] = i[1] / s; o[34] = i[2] / s; o[35] = i[3] / s; o[36] = i[4] / s; o[37] = i[5] / s; o[38] = i[6] / s; o[39] = i[7] / s; o[40] = i[8] / s; o[41] = i[9] / s; o[42] = i[10] / s; o[43] = i[11] / s; o[44] = i[12] / s; o[45] = i[13] / s; o[46] = i[14] / s; o[47] = i[15] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 48]) -> bool {
    let s = i[16]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s; o[12] = i[12] % s; o[13] = i[13] % s; o[14] = i[14] % s; o[15] = i[15] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; o[24] = i[8] % s; o[25] = i[9] % s; o[26] = i[10] % s; o[27] = i[11] % s; o[28] = i[12] % s; o[29] = i[13] % s; o[30] = i[14] % s; o[31] = i[15] % s;o[32] = i[0] % s; o[33] = i[1] % s; o[34] = i[2] % s; o[35] = i[3] % s; o[36] = i[4] % s; o[37] = i[5] % s; o[38] = i[6] % s; o[39] = i[7] % s; o[40] = i[8] % s; o[41] = i[9] % s; o[42] = i[10] % s; o[43] = i[11] % s; o[44] = i[12] % s; o[45] = i[13] % s; o[46] = i[14] % s; o[47] = i[15] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x4_u8(i: &[u8; 32], o: &mut [u8; 96]) -> bool {
    o[0] = i[0].wrapping_add(i[16]); o[1] = i[1].wrapping_add(i[17]); o[2] = i[2].wrapping_add(i[18]); o[3] = i[3].wrapping_add(i[19]); o[4] = i[4].wrapping_add(i[20]); o[5] = i[5].wrapping_add(i[21]); o[6] = i[6].wrapping_add(i[22]); o[7] = i[7].wrapping_add(i[23]); o[8] = i[8].wrapping_add(i[24]); o[9] = i[9].wrapping_add(i[25]); o[10] = i[10].wrapping_add(i[26]); o[11] = i[11].wrapping_add(i[27]); o[12] = i[12].wrapping_add(i[28]); o[13] = i[13].wrapping_add(i[29]); o[14] = i[14].wrapping_add(i[30]); o[15] = i[15].wrapping_add(i[31]);o[16] = i[0].wrapping_add(i[16]); o[17] = i[1].wrapping_add(i[17]); o[18] = i[2].wrapping_add(i[18]); o[19] = i[3].wrapping_add(i[19]); o[20] = i[4].wrapping_add(i[20]); o[21] = i[5].wrapping_add(i[21]); o[22] = i[6].wrapping_add(i[22]); o[23] = i[7].wrapping_add(i[23]); o[24] = i[8].wrapping_add(i[24]); o[25] = i[9].wrapping_add(i[25]); o[26] = i[10].wrapping_add(i[26]); o[27] = i[11].wrapping_add(i[27]); o[28] = i[12].wrapping_add(i[28]); o[29] = i[13].wrapping_add(i[29]); o[30] = i[14].wrapping_add(i[30]); o[31] = i[15].wrapping_add(i[31]);o[32] = i[0].wrapping_add(i[16]); o[33] = i[1].wrapping_add(i[17]); o[34] = i[2].wrapping_add(i[18]); o[35] = i[3].wrapping_add(i[19]); o[36] = i[4].wrapping_add(i[20]); o[37] = i[5].wrapping_add(i[21]); o[38] = i[6].wrapping_add(i[22]); o[39] = i[7].wrapping_add(i[23]); o[40] = i[8].wrapping_add(i[24]); o[41] = i[9].wrapping_add(i[25]); o[42] = i[10].wrapping_add(i[26]); o[43] = i[11].wrapping_add(i[27]); o[44] = i[12].wrapping_add(i[28]); o[45] = i[13].wrapping_add(i[29]); o[46] = i[14].wrapping_add(i[30]); o[47] = i[15].wrapping_add(i[31]);o[48] = i[0].wrapping_add(i[16]); o[49] = i[1].wrapping_add(i[17]); o[50] = i[2].wrapping_add(i[18]); o[51] = i[3].wrapping_add(i[19]); o[52] = i[4].wrapping_add(i[20]); o[53] = i[5].wrapping_add(i[21]); o[54] = i[6].wrapping_add(i[22]); o[55] = i[7].wrapping_add(i[23]); o[56] = i[8].wrapping_add(i[24]); o[57] = i[9].wrapping_add(i[25]); o[58] = i[10].wrapping_add(i[26]); o[59] = i[11].wrapping_add(i[27]); o[60] = i[12].wrapping_add(i[28]); o[61] = i[13].wrapping_add(i[29]); o[62] = i[14].wrapping_add(i[30]); o[63] = i[15].wrapping_add(i[31]);o[64] = i[0].wrapping_add(i[16]); o[65] = i[1].wrapping_add(i[17]); o[66] = i[2].wrapping_add(i[18]); o[67] = i[3].wrapping_add(i[19]); o[68] = i[4].wrapping_add(i[20]); o[69] = i[5].wrapping_add(i[21]); o[70] = i[6].wrapping_add(i[22]); o[71] = i[7].wrapping_add(i[23]); o[72] = i[8].wrapping_add(i[24]); o[73] = i[9].wrapping_add(i[25]); o[74] = i[10].wrapping_add(i[26]); o[75] = i[11].wrapping_add(i[27]); o[76] = i[12].wrapping_add(i[28]); o[77] = i[13].wrapping_add(i[29]); o[78] = i[14].wrapping_add(i[30]); o[79] = i[15].wrapping_add(i[31]);o[80] = i[0].wrapping_add(i[16]); o[81] = i[1].wrapping_add(i[17]); o[82] = i[2].wrapping_add(i[18]); o[83] = i[3].wrapping_add(i[19]); o[84] = i[4].wrapping_add(i[20]); o[85] = i[5].wrapping_add(i[21]); o[86] = i[6].wrapping_add(i[22]); o[87] = i[7].wrapping_add(i[23]); o[88] = i[8].wrapping_add(i[24]); o[89] = i[9].wrapping_add(i[25]); o[90] = i[10].wrapping_add(i[26]); o[91] = i[11].wrapping_add(i[27]); o[92] = i[12].wrapping_add(i[28]); o[93] = i[13].wrapping_add(i[29]); o[94] = i[14].wrapping_add(i[30]); o[95] = i[15].wrapping_add(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x4_u8(i: &[u8; 32], o: &mut [u8; 96]) -> bool {
    o[0] = i[0].wrapping_sub(i[16]); o[1] = i[1].wrapping_sub(i[17]); o[2] = i[2].wrapping_sub(i[18]); o[3] = i[3].wrapping_sub(i[19]); o[4] = i[4].wrapping_sub(i[20]); o[5] = i[5].wrapping_sub(i[21]); o[6] = i[6].wrapping_sub(i[22]); o[7] = i[7].wrapping_sub(i[23]); o[8] = i[8].wrapping_sub(i[24]); o[9] = i[9].wrapping_sub(i[25]); o[10] = i[10].wrapping_sub(i[26]); o[11] = i[11].wrapping_sub(i[27]); o[12] = i[12].wrapping_sub(i[28]); o[13] = i[13].wrapping_sub(i[29]); o[14] = i[14].wrapping_sub(i[30]); o[15] = i[15].wrapping_sub(i[31]);o[16] = i[0].wrapping_sub(i[16]); o[17] = i[1].wrapping_sub(i[17]); o[18] = i[2].wrapping_sub(i[18]); o[19] = i[3].wrapping_sub(i[19]); o[20] = i[4].wrapping_sub(i[20]); o[21] = i[5].wrapping_sub(i[21]); o[22] = i[6].wrapping_sub(i[22]); o[23] = i[7].wrapping_sub(i[23]); o[24] = i[8].wrapping_sub(i[24]); o[25] = i[9].wrapping_sub(i[25]); o[26] = i[10].wrapping_sub(i[26]); o[27] = i[11].wrapping_sub(i[27]); o[28] = i[12].wrapping_sub(i[28]); o[29] = i[13].wrapping_sub(i[29]); o[30] = i[14].wrapping_sub(i[30]); o[31] = i[15].wrapping_sub(i[31]);o[32] = i[0].wrapping_sub(i[16]); o[33] = i[1].wrapping_sub(i[17]); o[34] = i[2].wrapping_sub(i[18]); o[35] = i[3].wrapping_sub(i[19]); o[36] = i[4].wrapping_sub(i[20]); o[37] = i[5].wrapping_sub(i[21]); o[38] = i[6].wrapping_sub(i[22]); o[39] = i[7].wrapping_sub(i[23]); o[40] = i[8].wrapping_sub(i[24]); o[41] = i[9].wrapping_sub(i[25]); o[42] = i[10].wrapping_sub(i[26]); o[43] = i[11].wrapping_sub(i[27]); o[44] = i[12].wrapping_sub(i[28]); o[45] = i[13].wrapping_sub(i[29]); o[46] = i[14].wrapping_sub(i[30]); o[47] = i[15].wrapping_sub(i[31]);o[48] = i[0].wrapping_sub(i[16]); o[49] = i[1].wrapping_sub(i[17]); o[50] = i[2].wrapping_sub(i[18]); o[51] = i[3].wrapping_sub(i[19]); o[52] = i[4].wrapping_sub(i[20]); o[53] = i[5].wrapping_sub(i[21]); o[54] = i[6].wrapping_sub(i[22]); o[55] = i[7].wrapping_sub(i[23]); o[56] = i[8].wrapping_sub(i[24]); o[57] = i[9].wrapping_sub(i[25]); o[58] = i[10].wrapping_sub(i[26]); o[59] = i[11].wrapping_sub(i[27]); o[60] = i[12].wrapping_sub(i[28]); o[61] = i[13].wrapping_sub(i[29]); o[62] = i[14].wrapping_sub(i[30]); o[63] = i[15].wrapping_sub(i[31]);o[64] = i[0].wrapping_sub(i[16]); o[65] = i[1].wrapping_sub(i[17]); o[66] = i[2].wrapping_sub(i[18]); o[67] = i[3].wrapping_sub(i[19]); o[68] = i[4].wrapping_sub(i[20]); o[69] = i[5].wrapping_sub(i[21]); o[70] = i[6].wrapping_sub(i[22]); o[71] = i[7].wrapping_sub(i[23]); o[72] = i[8].wrapping_sub(i[24]); o[73] = i[9].wrapping_sub(i[25]); o[74] = i[10].wrapping_sub(i[26]); o[75] = i[11].wrapping_sub(i[27]); o[76] = i[12].wrapping_sub(i[28]); o[77] = i[13].wrapping_sub(i[29]); o[78] = i[14].wrapping_sub(i[30]); o[79] = i[15].wrapping_sub(i[31]);o[80] = i[0].wrapping_sub(i[16]); o[81] = i[1].wrapping_sub(i[17]); o[82] = i[2].wrapping_sub(i[18]); o[83] = i[3].wrapping_sub(i[19]); o[84] = i[4].wrapping_sub(i[20]); o[85] = i[5].wrapping_sub(i[21]); o[86] = i[6].wrapping_sub(i[22]); o[87] = i[7].wrapping_sub(i[23]); o[88] = i[8].wrapping_sub(i[24]); o[89] = i[9].wrapping_sub(i[25]); o[90] = i[10].wrapping_sub(i[26]); o[91] = i[11].wrapping_sub(i[27]); o[92] = i[12].wrapping_sub(i[28]); o[93] = i[13].wrapping_sub(i[29]); o[94] = i[14].wrapping_sub(i[30]); o[95] = i[15].wrapping_sub(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x3_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x3_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x2_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x2_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 36]) -> bool {
    let s = i[12]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); o[18] = i[6].wrapping_mul(s); o[19] = i[7].wrapping_mul(s); o[20] = i[8].wrapping_mul(s); o[21] = i[9].wrapping_mul(s); o[22] = i[10].wrapping_mul(s); o[23] = i[11].wrapping_mul(s);o[24] = i[0].wrapping_mul(s); o[25] = i[1].wrapping_mul(s); o[26] = i[2].wrapping_mul(s); o[27] = i[3].wrapping_mul(s); o[28] = i[4].wrapping_mul(s); o[29] = i[5].wrapping_mul(s); o[30] = i[6].wrapping_mul(s); o[31] = i[7].wrapping_mul(s); o[32] = i[8].wrapping_mul(s); o[33] = i[9].wrapping_mul(s); o[34] = i[10].wrapping_mul(s); o[35] = i[11].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 36]) -> bool {
    let s = i[12]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; o[18] = i[6] / s; o[19] = i[7] / s; o[20] = i[8] / s; o[21] = i[9] / s; o[22] = i[10] / s; o[23] = i[11] / s;o[24] = i[0] / s; o[25] = i[1] / s; o[26] = i[2] / s; o[27] = i[3] / s; o[28] = i[4] / s; o[29] = i[5] / s; o[30] = i[6] / s; o[31] = i[7] / s; o[32] = i[8] / s; o[33] = i[9] / s; o[34] = i[10] / s; o[35] = i[11] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 36]) -> bool {
    let s = i[12]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; o[18] = i[6] % s; o[19] = i[7] % s; o[20] = i[8] % s; o[21] = i[9] % s; o[22] = i[10] % s; o[23] = i[11] % s;o[24] = i[0] % s; o[25] = i[1] % s; o[26] = i[2] % s; o[27] = i[3] % s; o[28] = i[4] % s; o[29] = i[5] % s; o[30] = i[6] % s; o[31] = i[7] % s; o[32] = i[8] % s; o[33] = i[9] % s; o[34] = i[10] % s; o[35] = i[11] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x3_u8(i: &[u8; 24], o: &mut [u8; 72]) -> bool {
    o[0] = i[0].wrapping_add(i[12]); o[1] = i[1].wrapping_add(i[13]); o[2] = i[2].wrapping_add(i[14]); o[3] = i[3].wrapping_add(i[15]); o[4] = i[4].wrapping_add(i[16]); o[5] = i[5].wrapping_add(i[17]); o[6] = i[6].wrapping_add(i[18]); o[7] = i[7].wrapping_add(i[19]); o[8] = i[8].wrapping_add(i[20]); o[9] = i[9].wrapping_add(i[21]); o[10] = i[10].wrapping_add(i[22]); o[11] = i[11].wrapping_add(i[23]);o[12] = i[0].wrapping_add(i[12]); o[13] = i[1].wrapping_add(i[13]); o[14] = i[2].wrapping_add(i[14]); o[15] = i[3].wrapping_add(i[15]); o[16] = i[4].wrapping_add(i[16]); o[17] = i[5].wrapping_add(i[17]); o[18] = i[6].wrapping_add(i[18]); o[19] = i[7].wrapping_add(i[19]); o[20] = i[8].wrapping_add(i[20]); o[21] = i[9].wrapping_add(i[21]); o[22] = i[10].wrapping_add(i[22]); o[23] = i[11].wrapping_add(i[23]);o[24] = i[0].wrapping_add(i[12]); o[25] = i[1].wrapping_add(i[13]); o[26] = i[2].wrapping_add(i[14]); o[27] = i[3].wrapping_add(i[15]); o[28] = i[4].wrapping_add(i[16]); o[29] = i[5].wrapping_add(i[17]); o[30] = i[6].wrapping_add(i[18]); o[31] = i[7].wrapping_add(i[19]); o[32] = i[8].wrapping_add(i[20]); o[33] = i[9].wrapping_add(i[21]); o[34] = i[10].wrapping_add(i[22]); o[35] = i[11].wrapping_add(i[23]);o[36] = i[0].wrapping_add(i[12]); o[37] = i[1].wrapping_add(i[13]); o[38] = i[2].wrapping_add(i[14]); o[39] = i[3].wrapping_add(i[15]); o[40] = i[4].wrapping_add(i[16]); o[41] = i[5].wrapping_add(i[17]); o[42] = i[6].wrapping_add(i[18]); o[43] = i[7].wrapping_add(i[19]); o[44] = i[8].wrapping_add(i[20]); o[45] = i[9].wrapping_add(i[21]); o[46] = i[10].wrapping_add(i[22]); o[47] = i[11].wrapping_add(i[23]);o[48] = i[0].wrapping_add(i[12]); o[49] = i[1].wrapping_add(i[13]); o[50] = i[2].wrapping_add(i[14]); o[51] = i[3].wrapping_add(i[15]); o[52] = i[4].wrapping_add(i[16]); o[53] = i[5].wrapping_add(i[17]); o[54] = i[6].wrapping_add(i[18]); o[55] = i[7].wrapping_add(i[19]); o[56] = i[8].wrapping_add(i[20]); o[57] = i[9].wrapping_add(i[21]); o[58] = i[10].wrapping_add(i[22]); o[59] = i[11].wrapping_add(i[23]);o[60] = i[0].wrapping_add(i[12]); o[61] = i[1].wrapping_add(i[13]); o[62] = i[2].wrapping_add(i[14]); o[63] = i[3].wrapping_add(i[15]); o[64] = i[4].wrapping_add(i[16]); o[65] = i[5].wrapping_add(i[17]); o[66] = i[6].wrapping_add(i[18]); o[67] = i[7].wrapping_add(i[19]); o[68] = i[8].wrapping_add(i[20]); o[69] = i[9].wrapping_add(i[21]); o[70] = i[10].wrapping_add(i[22]); o[71] = i[11].wrapping_add(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x3_u8(i: &[u8; 24], o: &mut [u8; 72]) -> bool {
    o[0] = i[0].wrapping_sub(i[12]); o[1] = i[1].wrapping_sub(i[13]); o[2] = i[2].wrapping_sub(i[14]); o[3] = i[3].wrapping_sub(i[15]); o[4] = i[4].wrapping_sub(i[16]); o[5] = i[5].wrapping_sub(i[17]); o[6] = i[6].wrapping_sub(i[18]); o[7] = i[7].wrapping_sub(i[19]); o[8] = i[8].wrapping_sub(i[20]); o[9] = i[9].wrapping_sub(i[21]); o[10] = i[10].wrapping_sub(i[22]); o[11] = i[11].wrapping_sub(i[23]);o[12] = i[0].wrapping_sub(i[12]); o[13] = i[1].wrapping_sub(i[13]); o[14] = i[2].wrapping_sub(i[14]); o[15] = i[3].wrapping_sub(i[15]); o[16] = i[4].wrapping_sub(i[16]); o[17] = i[5].wrapping_sub(i[17]); o[18] = i[6].wrapping_sub(i[18]); o[19] = i[7].wrapping_sub(i[19]); o[20] = i[8].wrapping_sub(i[20]); o[21] = i[9].wrapping_sub(i[21]); o[22] = i[10].wrapping_sub(i[22]); o[23] = i[11].wrapping_sub(i[23]);o[24] = i[0].wrapping_sub(i[12]); o[25] = i[1].wrapping_sub(i[13]); o[26] = i[2].wrapping_sub(i[14]); o[27] = i[3].wrapping_sub(i[15]); o[28] = i[4].wrapping_sub(i[16]); o[29] = i[5].wrapping_sub(i[17]); o[30] = i[6].wrapping_sub(i[18]); o[31] = i[7].wrapping_sub(i[19]); o[32] = i[8].wrapping_sub(i[20]); o[33] = i[9].wrapping_sub(i[21]); o[34] = i[10].wrapping_sub(i[22]); o[35] = i[11].wrapping_sub(i[23]);o[36] = i[0].wrapping_sub(i[12]); o[37] = i[1].wrapping_sub(i[13]); o[38] = i[2].wrapping_sub(i[14]); o[39] = i[3].wrapping_sub(i[15]); o[40] = i[4].wrapping_sub(i[16]); o[41] = i[5].wrapping_sub(i[17]); o[42] = i[6].wrapping_sub(i[18]); o[43] = i[7].wrapping_sub(i[19]); o[44] = i[8].wrapping_sub(i[20]); o[45] = i[9].wrapping_sub(i[21]); o[46] = i[10].wrapping_sub(i[22]); o[47] = i[11].wrapping_sub(i[23]);o[48] = i[0].wrapping_sub(i[12]); o[49] = i[1].wrapping_sub(i[13]); o[50] = i[2].wrapping_sub(i[14]); o[51] = i[3].wrapping_sub(i[15]); o[52] = i[4].wrapping_sub(i[16]); o[53] = i[5].wrapping_sub(i[17]); o[54] = i[6].wrapping_sub(i[18]); o[55] = i[7].wrapping_sub(i[19]); o[56] = i[8].wrapping_sub(i[20]); o[57] = i[9].wrapping_sub(i[21]); o[58] = i[10].wrapping_sub(i[22]); o[59] = i[11].wrapping_sub(i[23]);o[60] = i[0].wrapping_sub(i[12]); o[61] = i[1].wrapping_sub(i[13]); o[62] = i[2].wrapping_sub(i[14]); o[63] = i[3].wrapping_sub(i[15]); o[64] = i[4].wrapping_sub(i[16]); o[65] = i[5].wrapping_sub(i[17]); o[66] = i[6].wrapping_sub(i[18]); o[67] = i[7].wrapping_sub(i[19]); o[68] = i[8].wrapping_sub(i[20]); o[69] = i[9].wrapping_sub(i[21]); o[70] = i[10].wrapping_sub(i[22]); o[71] = i[11].wrapping_sub(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 24]) -> bool {
    let s = i[8]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); o[12] = i[4].wrapping_mul(s); o[13] = i[5].wrapping_mul(s); o[14] = i[6].wrapping_mul(s); o[15] = i[7].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 24]) -> bool {
    let s = i[8]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; o[12] = i[4] / s; o[13] = i[5] / s; o[14] = i[6] / s; o[15] = i[7] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 24]) -> bool {
    let s = i[8]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; o[12] = i[4] % s; o[13] = i[5] % s; o[14] = i[6] % s; o[15] = i[7] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x2_u8(i: &[u8; 16], o: &mut [u8; 48]) -> bool {
    o[0] = i[0].wrapping_add(i[8]); o[1] = i[1].wrapping_add(i[9]); o[2] = i[2].wrapping_add(i[10]); o[3] = i[3].wrapping_add(i[11]); o[4] = i[4].wrapping_add(i[12]); o[5] = i[5].wrapping_add(i[13]); o[6] = i[6].wrapping_add(i[14]); o[7] = i[7].wrapping_add(i[15]);o[8] = i[0].wrapping_add(i[8]); o[9] = i[1].wrapping_add(i[9]); o[10] = i[2].wrapping_add(i[10]); o[11] = i[3].wrapping_add(i[11]); o[12] = i[4].wrapping_add(i[12]); o[13] = i[5].wrapping_add(i[13]); o[14] = i[6].wrapping_add(i[14]); o[15] = i[7].wrapping_add(i[15]);o[16] = i[0].wrapping_add(i[8]); o[17] = i[1].wrapping_add(i[9]); o[18] = i[2].wrapping_add(i[10]); o[19] = i[3].wrapping_add(i[11]); o[20] = i[4].wrapping_add(i[12]); o[21] = i[5].wrapping_add(i[13]); o[22] = i[6].wrapping_add(i[14]); o[23] = i[7].wrapping_add(i[15]);o[24] = i[0].wrapping_add(i[8]); o[25] = i[1].wrapping_add(i[9]); o[26] = i[2].wrapping_add(i[10]); o[27] = i[3].wrapping_add(i[11]); o[28] = i[4].wrapping_add(i[12]); o[29] = i[5].wrapping_add(i[13]); o[30] = i[6].wrapping_add(i[14]); o[31] = i[7].wrapping_add(i[15]);o[32] = i[0].wrapping_add(i[8]); o[33] = i[1].wrapping_add(i[9]); o[34] = i[2].wrapping_add(i[10]); o[35] = i[3].wrapping_add(i[11]); o[36] = i[4].wrapping_add(i[12]); o[37] = i[5].wrapping_add(i[13]); o[38] = i[6].wrapping_add(i[14]); o[39] = i[7].wrapping_add(i[15]);o[40] = i[0].wrapping_add(i[8]); o[41] = i[1].wrapping_add(i[9]); o[42] = i[2].wrapping_add(i[10]); o[43] = i[3].wrapping_add(i[11]); o[44] = i[4].wrapping_add(i[12]); o[45] = i[5].wrapping_add(i[13]); o[46] = i[6].wrapping_add(i[14]); o[47] = i[7].wrapping_add(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x2_u8(i: &[u8; 16], o: &mut [u8; 48]) -> bool {
    o[0] = i[0].wrapping_sub(i[8]); o[1] = i[1].wrapping_sub(i[9]); o[2] = i[2].wrapping_sub(i[10]); o[3] = i[3].wrapping_sub(i[11]); o[4] = i[4].wrapping_sub(i[12]); o[5] = i[5].wrapping_sub(i[13]); o[6] = i[6].wrapping_sub(i[14]); o[7] = i[7].wrapping_sub(i[15]);o[8] = i[0].wrapping_sub(i[8]); o[9] = i[1].wrapping_sub(i[9]); o[10] = i[2].wrapping_sub(i[10]); o[11] = i[3].wrapping_sub(i[11]); o[12] = i[4].wrapping_sub(i[12]); o[13] = i[5].wrapping_sub(i[13]); o[14] = i[6].wrapping_sub(i[14]); o[15] = i[7].wrapping_sub(i[15]);o[16] = i[0].wrapping_sub(i[8]); o[17] = i[1].wrapping_sub(i[9]); o[18] = i[2].wrapping_sub(i[10]); o[19] = i[3].wrapping_sub(i[11]); o[20] = i[4].wrapping_sub(i[12]); o[21] = i[5].wrapping_sub(i[13]); o[22] = i[6].wrapping_sub(i[14]); o[23] = i[7].wrapping_sub(i[15]);o[24] = i[0].wrapping_sub(i[8]); o[25] = i[1].wrapping_sub(i[9]); o[26] = i[2].wrapping_sub(i[10]); o[27] = i[3].wrapping_sub(i[11]); o[28] = i[4].wrapping_sub(i[12]); o[29] = i[5].wrapping_sub(i[13]); o[30] = i[6].wrapping_sub(i[14]); o[31] = i[7].wrapping_sub(i[15]);o[32] = i[0].wrapping_sub(i[8]); o[33] = i[1].wrapping_sub(i[9]); o[34] = i[2].wrapping_sub(i[10]); o[35] = i[3].wrapping_sub(i[11]); o[36] = i[4].wrapping_sub(i[12]); o[37] = i[5].wrapping_sub(i[13]); o[38] = i[6].wrapping_sub(i[14]); o[39] = i[7].wrapping_sub(i[15]);o[40] = i[0].wrapping_sub(i[8]); o[41] = i[1].wrapping_sub(i[9]); o[42] = i[2].wrapping_sub(i[10]); o[43] = i[3].wrapping_sub(i[11]); o[44] = i[4].wrapping_sub(i[12]); o[45] = i[5].wrapping_sub(i[13]); o[46] = i[6].wrapping_sub(i[14]); o[47] = i[7].wrapping_sub(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_mul_scalar_quaternion_u8(i: &[u8; 5], o: &mut [u8; 20]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_div_scalar_quaternion_u8(i: &[u8; 5], o: &mut [u8; 20]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_rem_scalar_quaternion_u8(i: &[u8; 5], o: &mut [u8; 20]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_add_quaternion_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_sub_quaternion_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_mul_scalar_complex_u8(i: &[u8; 3], o: &mut [u8; 10]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_scalar_complex_u8(i: &[u8; 3], o: &mut [u8; 10]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s;o[6] = i[0] / s; o[7] = i[1] / s;o[8] = i[0] / s; o[9] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_rem_scalar_complex_u8(i: &[u8; 3], o: &mut [u8; 10]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s;o[6] = i[0] % s; o[7] = i[1] % s;o[8] = i[0] % s; o[9] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_add_complex_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_sub_complex_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x2_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x2_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 27]) -> bool {
    let s = i[9]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s);o[9] = i[0].wrapping_mul(s); o[10] = i[1].wrapping_mul(s); o[11] = i[2].wrapping_mul(s); o[12] = i[3].wrapping_mul(s); o[13] = i[4].wrapping_mul(s); o[14] = i[5].wrapping_mul(s); o[15] = i[6].wrapping_mul(s); o[16] = i[7].wrapping_mul(s); o[17] = i[8].wrapping_mul(s);o[18] = i[0].wrapping_mul(s); o[19] = i[1].wrapping_mul(s); o[20] = i[2].wrapping_mul(s); o[21] = i[3].wrapping_mul(s); o[22] = i[4].wrapping_mul(s); o[23] = i[5].wrapping_mul(s); o[24] = i[6].wrapping_mul(s); o[25] = i[7].wrapping_mul(s); o[26] = i[8].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 27]) -> bool {
    let s = i[9]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s;o[9] = i[0] / s; o[10] = i[1] / s; o[11] = i[2] / s; o[12] = i[3] / s; o[13] = i[4] / s; o[14] = i[5] / s; o[15] = i[6] / s; o[16] = i[7] / s; o[17] = i[8] / s;o[18] = i[0] / s; o[19] = i[1] / s; o[20] = i[2] / s; o[21] = i[3] / s; o[22] = i[4] / s; o[23] = i[5] / s; o[24] = i[6] / s; o[25] = i[7] / s; o[26] = i[8] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 27]) -> bool {
    let s = i[9]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s;o[9] = i[0] % s; o[10] = i[1] % s; o[11] = i[2] % s; o[12] = i[3] % s; o[13] = i[4] % s; o[14] = i[5] % s; o[15] = i[6] % s; o[16] = i[7] % s; o[17] = i[8] % s;o[18] = i[0] % s; o[19] = i[1] % s; o[20] = i[2] % s; o[21] = i[3] % s; o[22] = i[4] % s; o[23] = i[5] % s; o[24] = i[6] % s; o[25] = i[7] % s; o[26] = i[8] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x3_i16(i: &[i16; 18], o: &mut [i16; 54]) -> bool {
    o[0] = i[0].wrapping_add(i[9]); o[1] = i[1].wrapping_add(i[10]); o[2] = i[2].wrapping_add(i[11]); o[3] = i[3].wrapping_add(i[12]); o[4] = i[4].wrapping_add(i[13]); o[5] = i[5].wrapping_add(i[14]); o[6] = i[6].wrapping_add(i[15]); o[7] = i[7].wrapping_add(i[16]); o[8] = i[8].wrapping_add(i[17]);o[9] = i[0].wrapping_add(i[9]); o[10] = i[1].wrapping_add(i[10]); o[11] = i[2].wrapping_add(i[11]); o[12] = i[3].wrapping_add(i[12]); o[13] = i[4].wrapping_add(i[13]); o[14] = i[5].wrapping_add(i[14]); o[15] = i[6].wrapping_add(i[15]); o[16] = i[7].wrapping_add(i[16]); o[17] = i[8].wrapping_add(i[17]);o[18] = i[0].wrapping_add(i[9]); o[19] = i[1].wrapping_add(i[10]); o[20] = i[2].wrapping_add(i[11]); o[21] = i[3].wrapping_add(i[12]); o[22] = i[4].wrapping_add(i[13]); o[23] = i[5].wrapping_add(i[14]); o[24] = i[6].wrapping_add(i[15]); o[25] = i[7].wrapping_add(i[16]); o[26] = i[8].wrapping_add(i[17]);o[27] = i[0].wrapping_add(i[9]); o[28] = i[1].wrapping_add(i[10]); o[29] = i[2].wrapping_add(i[11]); o[30] = i[3].wrapping_add(i[12]); o[31] = i[4].wrapping_add(i[13]); o[32] = i[5].wrapping_add(i[14]); o[33] = i[6].wrapping_add(i[15]); o[34] = i[7].wrapping_add(i[16]); o[35] = i[8].wrapping_add(i[17]);o[36] = i[0].wrapping_add(i[9]); o[37] = i[1].wrapping_add(i[10]); o[38] = i[2].wrapping_add(i[11]); o[39] = i[3].wrapping_add(i[12]); o[40] = i[4].wrapping_add(i[13]); o[41] = i[5].wrapping_add(i[14]); o[42] = i[6].wrapping_add(i[15]); o[43] = i[7].wrapping_add(i[16]); o[44] = i[8].wrapping_add(i[17]);o[45] = i[0].wrapping_add(i[9]); o[46] = i[1].wrapping_add(i[10]); o[47] = i[2].wrapping_add(i[11]); o[48] = i[3].wrapping_add(i[12]); o[49] = i[4].wrapping_add(i[13]); o[50] = i[5].wrapping_add(i[14]); o[51] = i[6].wrapping_add(i[15]); o[52] = i[7].wrapping_add(i[16]); o[53] = i[8].wrapping_add(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x3_i16(i: &[i16; 18], o: &mut [i16; 54]) -> bool {
    o[0] = i[0].wrapping_sub(i[9]); o[1] = i[1].wrapping_sub(i[10]); o[2] = i[2].wrapping_sub(i[11]); o[3] = i[3].wrapping_sub(i[12]); o[4] = i[4].wrapping_sub(i[13]); o[5] = i[5].wrapping_sub(i[14]); o[6] = i[6].wrapping_sub(i[15]); o[7] = i[7].wrapping_sub(i[16]); o[8] = i[8].wrapping_sub(i[17]);o[9] = i[0].wrapping_sub(i[9]); o[10] = i[1].wrapping_sub(i[10]); o[11] = i[2].wrapping_sub(i[11]); o[12] = i[3].wrapping_sub(i[12]); o[13] = i[4].wrapping_sub(i[13]); o[14] = i[5].wrapping_sub(i[14]); o[15] = i[6].wrapping_sub(i[15]); o[16] = i[7].wrapping_sub(i[16]); o[17] = i[8].wrapping_sub(i[17]);o[18] = i[0].wrapping_sub(i[9]); o[19] = i[1].wrapping_sub(i[10]); o[20] = i[2].wrapping_sub(i[11]); o[21] = i[3].wrapping_sub(i[12]); o[22] = i[4].wrapping_sub(i[13]); o[23] = i[5].wrapping_sub(i[14]); o[24] = i[6].wrapping_sub(i[15]); o[25] = i[7].wrapping_sub(i[16]); o[26] = i[8].wrapping_sub(i[17]);o[27] = i[0].wrapping_sub(i[9]); o[28] = i[1].wrapping_sub(i[10]); o[29] = i[2].wrapping_sub(i[11]); o[30] = i[3].wrapping_sub(i[12]); o[31] = i[4].wrapping_sub(i[13]); o[32] = i[5].wrapping_sub(i[14]); o[33] = i[6].wrapping_sub(i[15]); o[34] = i[7].wrapping_sub(i[16]); o[35] = i[8].wrapping_sub(i[17]);o[36] = i[0].wrapping_sub(i[9]); o[37] = i[1].wrapping_sub(i[10]); o[38] = i[2].wrapping_sub(i[11]); o[39] = i[3].wrapping_sub(i[12]); o[40] = i[4].wrapping_sub(i[13]); o[41] = i[5].wrapping_sub(i[14]); o[42] = i[6].wrapping_sub(i[15]); o[43] = i[7].wrapping_sub(i[16]); o[44] = i[8].wrapping_sub(i[17]);o[45] = i[0].wrapping_sub(i[9]); o[46] = i[1].wrapping_sub(i[10]); o[47] = i[2].wrapping_sub(i[11]); o[48] = i[3].wrapping_sub(i[12]); o[49] = i[4].wrapping_sub(i[13]); o[50] = i[5].wrapping_sub(i[14]); o[51] = i[6].wrapping_sub(i[15]); o[52] = i[7].wrapping_sub(i[16]); o[53] = i[8].wrapping_sub(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 48]) -> bool {
    let s = i[16]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s); o[12] = i[12].wrapping_mul(s); o[13] = i[13].wrapping_mul(s); o[14] = i[14].wrapping_mul(s); o[15] = i[15].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); o[24] = i[8].wrapping_mul(s); o[25] = i[9].wrapping_mul(s); o[26] = i[10].wrapping_mul(s); o[27] = i[11].wrapping_mul(s); o[28] = i[12].wrapping_mul(s); o[29] = i[13].wrapping_mul(s); o[30] = i[14].wrapping_mul(s); o[31] = i[15].wrapping_mul(s);o[32] = i[0].wrapping_mul(s); o[33] = i[1].wrapping_mul(s); o[34] = i[2].wrapping_mul(s); o[35] = i[3].wrapping_mul(s); o[36] = i[4].wrapping_mul(s); o[37] = i[5].wrapping_mul(s); o[38] = i[6].wrapping_mul(s); o[39] = i[7].wrapping_mul(s); o[40] = i[8].wrapping_mul(s); o[41] = i[9].wrapping_mul(s); o[42] = i[10].wrapping_mul(s); o[43] = i[11].wrapping_mul(s); o[44] = i[12].wrapping_mul(s); o[45] = i[13].wrapping_mul(s); o[46] = i[14].wrapping_mul(s); o[47] = i[15].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 48]) -> bool {
    let s = i[16]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s; o[12] = i[12] / s; o[13] = i[13] / s; o[14] = i[14] / s; o[15] = i[15] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; o[24] = i[8] / s; o[25] = i[9] / s; o[26] = i[10] / s; o[27] = i[11] / s; o[28] = i[12] / s; o[29] = i[13] / s; o[30] = i[14] / s; o[31] = i[15] / s;o[32] = i[0] / s; o[33] = i[1] / s; o[34] = i[2] / s; o[35] = i[3] / s; o[36] = i[4] / s; o[37] = i[5] / s; o[38] = i[6] / s; o[39] = i[7] / s; o[40] = i[8] / s; o[41] = i[9] / s; o[42] = i[10] / s; o[43] = i[11] / s; o[44] = i[12] / s; o[45] = i[13] / s; o[46] = i[14] / s; o[47] = i[15] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 48]) -> bool {
    let s = i[16]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s; o[12] = i[12] % s; o[13] = i[13] % s; o[14] = i[14] % s; o[15] = i[15] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; o[24] = i[8] % s; o[25] = i[9] % s; o[26] = i[10] % s; o[27] = i[11] % s; o[28] = i[12] % s; o[29] = i[13] % s; o[30] = i[14] % s; o[31] = i[15] % s;o[32] = i[0] % s; o[33] = i[1] % s; o[34] = i[2] % s; o[35] = i[3] % s; o[36] = i[4] % s; o[37] = i[5] % s; o[38] = i[6] % s; o[39] = i[7] % s; o[40] = i[8] % s; o[41] = i[9] % s; o[42] = i[10] % s; o[43] = i[11] % s; o[44] = i[12] % s; o[45] = i[13] % s; o[46] = i[14] % s; o[47] = i[15] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x4_i16(i: &[i16; 32], o: &mut [i16; 96]) -> bool {
    o[0] = i[0].wrapping_add(i[16]); o[1] = i[1].wrapping_add(i[17]); o[2] = i[2].wrapping_add(i[18]); o[3] = i[3].wrapping_add(i[19]); o[4] = i[4].wrapping_add(i[20]); o[5] = i[5].wrapping_add(i[21]); o[6] = i[6].wrapping_add(i[22]); o[7] = i[7].wrapping_add(i[23]); o[8] = i[8].wrapping_add(i[24]); o[9] = i[9].wrapping_add(i[25]); o[10] = i[10].wrapping_add(i[26]); o[11] = i[11].wrapping_add(i[27]); o[12] = i[12].wrapping_add(i[28]); o[13] = i[13].wrapping_add(i[29]); o[14] = i[14].wrapping_add(i[30]); o[15] = i[15].wrapping_add(i[31]);o[16] = i[0].wrapping_add(i[16]); o[17] = i[1].wrapping_add(i[17]); o[18] = i[2].wrapping_add(i[18]); o[19] = i[3].wrapping_add(i[19]); o[20] = i[4].wrapping_add(i[20]); o[21] = i[5].wrapping_add(i[21]); o[22] = i[6].wrapping_add(i[22]); o[23] = i[7].wrapping_add(i[23]); o[24] = i[8].wrapping_add(i[24]); o[25] = i[9].wrapping_add(i[25]); o[26] = i[10].wrapping_add(i[26]); o[27] = i[11].wrapping_add(i[27]); o[28] = i[12].wrapping_add(i[28]); o[29] = i[13].wrapping_add(i[29]); o[30] = i[14].wrapping_add(i[30]); o[31] = i[15].wrapping_add(i[31]);o[32] = i[0].wrapping_add(i[16]); o[33] = i[1].wrapping_add(i[17]); o[34] = i[2].wrapping_add(i[18]); o[35] = i[3].wrapping_add(i[19]); o[36] = i[4].wrapping_add(i[20]); o[37] = i[5].wrapping_add(i[21]); o[38] = i[6].wrapping_add(i[22]); o[39] = i[7].wrapping_add(i[23]); o[40] = i[8].wrapping_add(i[24]); o[41] = i[9].wrapping_add(i[25]); o[42] = i[10].wrapping_add(i[26]); o[43] = i[11].wrapping_add(i[27]); o[44] = i[12].wrapping_add(i[28]); o[45] = i[13].wrapping_add(i[29]); o[46] = i[14].wrapping_add(i[30]); o[47] = i[15].wrapping_add(i[31]);o[48] = i[0].wrapping_add(i[16]); o[49] = i[1].wrapping_add(i[17]); o[50] = i[2].wrapping_add(i[18]); o[51] = i[3].wrapping_add(i[19]); o[52] = i[4].wrapping_add(i[20]); o[53] = i[5].wrapping_add(i[21]); o[54] = i[6].wrapping_add(i[22]); o[55] = i[7].wrapping_add(i[23]); o[56] = i[8].wrapping_add(i[24]); o[57] = i[9].wrapping_add(i[25]); o[58] = i[10].wrapping_add(i[26]); o[59] = i[11].wrapping_add(i[27]); o[60] = i[12].wrapping_add(i[28]); o[61] = i[13].wrapping_add(i[29]); o[62] = i[14].wrapping_add(i[30]); o[63] = i[15].wrapping_add(i[31]);o[64] = i[0].wrapping_add(i[16]); o[65] = i[1].wrapping_add(i[17]); o[66] = i[2].wrapping_add(i[18]); o[67] = i[3].wrapping_add(i[19]); o[68] = i[4].wrapping_add(i[20]); o[69] = i[5].wrapping_add(i[21]); o[70] = i[6].wrapping_add(i[22]); o[71] = i[7].wrapping_add(i[23]); o[72] = i[8].wrapping_add(i[24]); o[73] = i[9].wrapping_add(i[25]); o[74] = i[10].wrapping_add(i[26]); o[75] = i[11].wrapping_add(i[27]); o[76] = i[12].wrapping_add(i[28]); o[77] = i[13].wrapping_add(i[29]); o[78] = i[14].wrapping_add(i[30]); o[79] = i[15].wrapping_add(i[31]);o[80] = i[0].wrapping_add(i[16]); o[81] = i[1].wrapping_add(i[17]); o[82] = i[2].wrapping_add(i[18]); o[83] = i[3].wrapping_add(i[19]); o[84] = i[4].wrapping_add(i[20]); o[85] = i[5].wrapping_add(i[21]); o[86] = i[6].wrapping_add(i[22]); o[87] = i[7].wrapping_add(i[23]); o[88] = i[8].wrapping_add(i[24]); o[89] = i[9].wrapping_add(i[25]); o[90] = i[10].wrapping_add(i[26]); o[91] = i[11].wrapping_add(i[27]); o[92] = i[12].wrapping_add(i[28]); o[93] = i[13].wrapping_add(i[29]); o[94] = i[14].wrapping_add(i[30]); o[95] = i[15].wrapping_add(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x4_i16(i: &[i16; 32], o: &mut [i16; 96]) -> bool {
    o[0] = i[0].wrapping_sub(i[16]); o[1] = i[1].wrapping_sub(i[17]); o[2] = i[2].wrapping_sub(i[18]); o[3] = i[3].wrapping_sub(i[19]); o[4] = i[4].wrapping_sub(i[20]); o[5] = i[5].wrapping_sub(i[21]); o[6] = i[6].wrapping_sub(i[22]); o[7] = i[7].wrapping_sub(i[23]); o[8] = i[8].wrapping_sub(i[24]); o[9] = i[9].wrapping_sub(i[25]); o[10] = i[10].wrapping_sub(i[26]); o[11] = i[11].wrapping_sub(i[27]); o[12] = i[12].wrapping_sub(i[28]); o[13] = i[13].wrapping_sub(i[29]); o[14] = i[14].wrapping_sub(i[30]); o[15] = i[15].wrapping_sub(i[31]);o[16] = i[0].wrapping_sub(i[16]); o[17] = i[1].wrapping_sub(i[17]); o[18] = i[2].wrapping_sub(i[18]); o[19] = i[3].wrapping_sub(i[19]); o[20] = i[4].wrapping_sub(i[20]); o[21] = i[5].wrapping_sub(i[21]); o[22] = i[6].wrapping_sub(i[22]); o[23] = i[7].wrapping_sub(i[23]); o[24] = i[8].wrapping_sub(i[24]); o[25] = i[9].wrapping_sub(i[25]); o[26] = i[10].wrapping_sub(i[26]); o[27] = i[11].wrapping_sub(i[27]); o[28] = i[12].wrapping_sub(i[28]); o[29] = i[13].wrapping_sub(i[29]); o[30] = i[14].wrapping_sub(i[30]); o[31] = i[15].wrapping_sub(i[31]);o[32] = i[0].wrapping_sub(i[16]); o[33] = i[1].wrapping_sub(i[17]); o[34] = i[2].wrapping_sub(i[18]); o[35] = i[3].wrapping_sub(i[19]); o[36] = i[4].wrapping_sub(i[20]); o[37] = i[5].wrapping_sub(i[21]); o[38] = i[6].wrapping_sub(i[22]); o[39] = i[7].wrapping_sub(i[23]); o[40] = i[8].wrapping_sub(i[24]); o[41] = i[9].wrapping_sub(i[25]); o[42] = i[10].wrapping_sub(i[26]); o[43] = i[11].wrapping_sub(i[27]); o[44] = i[12].wrapping_sub(i[28]); o[45] = i[13].wrapping_sub(i[29]); o[46] = i[14].wrapping_sub(i[30]); o[47] = i[15].wrapping_sub(i[31]);o[48] = i[0].wrapping_sub(i[16]); o[49] = i[1].wrapping_sub(i[17]); o[50] = i[2].wrapping_sub(i[18]); o[51] = i[3].wrapping_sub(i[19]); o[52] = i[4].wrapping_sub(i[20]); o[53] = i[5].wrapping_sub(i[21]); o[54] = i[6].wrapping_sub(i[22]); o[55] = i[7].wrapping_sub(i[23]); o[56] = i[8].wrapping_sub(i[24]); o[57] = i[9].wrapping_sub(i[25]); o[58] = i[10].wrapping_sub(i[26]); o[59] = i[11].wrapping_sub(i[27]); o[60] = i[12].wrapping_sub(i[28]); o[61] = i[13].wrapping_sub(i[29]); o[62] = i[14].wrapping_sub(i[30]); o[63] = i[15].wrapping_sub(i[31]);o[64] = i[0].wrapping_sub(i[16]); o[65] = i[1].wrapping_sub(i[17]); o[66] = i[2].wrapping_sub(i[18]); o[67] = i[3].wrapping_sub(i[19]); o[68] = i[4].wrapping_sub(i[20]); o[69] = i[5].wrapping_sub(i[21]); o[70] = i[6].wrapping_sub(i[22]); o[71] = i[7].wrapping_sub(i[23]); o[72] = i[8].wrapping_sub(i[24]); o[73] = i[9].wrapping_sub(i[25]); o[74] = i[10].wrapping_sub(i[26]); o[75] = i[11].wrapping_sub(i[27]); o[76] = i[12].wrapping_sub(i[28]); o[77] = i[13].wrapping_sub(i[29]); o[78] = i[14].wrapping_sub(i[30]); o[79] = i[15].wrapping_sub(i[31]);o[80] = i[0].wrapping_sub(i[16]); o[81] = i[1].wrapping_sub(i[17]); o[82] = i[2].wrapping_sub(i[18]); o[83] = i[3].wrapping_sub(i[19]); o[84] = i[4].wrapping_sub(i[20]); o[85] = i[5].wrapping_sub(i[21]); o[86] = i[6].wrapping_sub(i[22]); o[87] = i[7].wrapping_sub(i[23]); o[88] = i[8].wrapping_sub(i[24]); o[89] = i[9].wrapping_sub(i[25]); o[90] = i[10].wrapping_sub(i[26]); o[91] = i[11].wrapping_sub(i[27]); o[92] = i[12].wrapping_sub(i[28]); o[93] = i[13].wrapping_sub(i[29]); o[94] = i[14].wrapping_sub(i[30]); o[95] = i[15].wrapping_sub(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x3_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x3_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x2_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x2_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 36]) -> bool {
    let s = i[12]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); o[18] = i[6].wrapping_mul(s); o[19] = i[7].wrapping_mul(s); o[20] = i[8].wrapping_mul(s); o[21] = i[9].wrapping_mul(s); o[22] = i[10].wrapping_mul(s); o[23] = i[11].wrapping_mul(s);o[24] = i[0].wrapping_mul(s); o[25] = i[1].wrapping_mul(s); o[26] = i[2].wrapping_mul(s); o[27] = i[3].wrapping_mul(s); o[28] = i[4].wrapping_mul(s); o[29] = i[5].wrapping_mul(s); o[30] = i[6].wrapping_mul(s); o[31] = i[7].wrapping_mul(s); o[32] = i[8].wrapping_mul(s); o[33] = i[9].wrapping_mul(s); o[34] = i[10].wrapping_mul(s); o[35] = i[11].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 36]) -> bool {
    let s = i[12]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; o[18] = i[6] / s; o[19] = i[7] / s; o[20] = i[8] / s; o[21] = i[9] / s; o[22] = i[10] / s; o[23] = i[11] / s;o[24] = i[0] / s; o[25] = i[1] / s; o[26] = i[2] / s; o[27] = i[3] / s; o[28] = i[4] / s; o[29] = i[5] / s; o[30] = i[6] / s; o[31] = i[7] / s; o[32] = i[8] / s; o[33] = i[9] / s; o[34] = i[10] / s; o[35] = i[11] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 36]) -> bool {
    let s = i[12]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; o[18] = i[6] % s; o[19] = i[7] % s; o[20] = i[8] % s; o[21] = i[9] % s; o[22] = i[10] % s; o[23] = i[11] % s;o[24] = i[0] % s; o[25] = i[1] % s; o[26] = i[2] % s; o[27] = i[3] % s; o[28] = i[4] % s; o[29] = i[5] % s; o[30] = i[6] % s; o[31] = i[7] % s; o[32] = i[8] % s; o[33] = i[9] % s; o[34] = i[10] % s; o[35] = i[11] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x3_i16(i: &[i16; 24], o: &mut [i16; 72]) -> bool {
    o[0] = i[0].wrapping_add(i[12]); o[1] = i[1].wrapping_add(i[13]); o[2] = i[2].wrapping_add(i[14]); o[3] = i[3].wrapping_add(i[15]); o[4] = i[4].wrapping_add(i[16]); o[5] = i[5].wrapping_add(i[17]); o[6] = i[6].wrapping_add(i[18]); o[7] = i[7].wrapping_add(i[19]); o[8] = i[8].wrapping_add(i[20]); o[9] = i[9].wrapping_add(i[21]); o[10] = i[10].wrapping_add(i[22]); o[11] = i[11].wrapping_add(i[23]);o[12] = i[0].wrapping_add(i[12]); o[13] = i[1].wrapping_add(i[13]); o[14] = i[2].wrapping_add(i[14]); o[15] = i[3].wrapping_add(i[15]); o[16] = i[4].wrapping_add(i[16]); o[17] = i[5].wrapping_add(i[17]); o[18] = i[6].wrapping_add(i[18]); o[19] = i[7].wrapping_add(i[19]); o[20] = i[8].wrapping_add(i[20]); o[21] = i[9].wrapping_add(i[21]); o[22] = i[10].wrapping_add(i[22]); o[23] = i[11].wrapping_add(i[23]);o[24] = i[0].wrapping_add(i[12]); o[25] = i[1].wrapping_add(i[13]); o[26] = i[2].wrapping_add(i[14]); o[27] = i[3].wrapping_add(i[15]); o[28] = i[4].wrapping_add(i[16]); o[29] = i[5].wrapping_add(i[17]); o[30] = i[6].wrapping_add(i[18]); o[31] = i[7].wrapping_add(i[19]); o[32] = i[8].wrapping_add(i[20]); o[33] = i[9].wrapping_add(i[21]); o[34] = i[10].wrapping_add(i[22]); o[35] = i[11].wrapping_add(i[23]);o[36] = i[0].wrapping_add(i[12]); o[37] = i[1].wrapping_add(i[13]); o[38] = i[2].wrapping_add(i[14]); o[39] = i[3].wrapping_add(i[15]); o[40] = i[4].wrapping_add(i[16]); o[41] = i[5].wrapping_add(i[17]); o[42] = i[6].wrapping_add(i[18]); o[43] = i[7].wrapping_add(i[19]); o[44] = i[8].wrapping_add(i[20]); o[45] = i[9].wrapping_add(i[21]); o[46] = i[10].wrapping_add(i[22]); o[47] = i[11].wrapping_add(i[23]);o[48] = i[0].wrapping_add(i[12]); o[49] = i[1].wrapping_add(i[13]); o[50] = i[2].wrapping_add(i[14]); o[51] = i[3].wrapping_add(i[15]); o[52] = i[4].wrapping_add(i[16]); o[53] = i[5].wrapping_add(i[17]); o[54] = i[6].wrapping_add(i[18]); o[55] = i[7].wrapping_add(i[19]); o[56] = i[8].wrapping_add(i[20]); o[57] = i[9].wrapping_add(i[21]); o[58] = i[10].wrapping_add(i[22]); o[59] = i[11].wrapping_add(i[23]);o[60] = i[0].wrapping_add(i[12]); o[61] = i[1].wrapping_add(i[13]); o[62] = i[2].wrapping_add(i[14]); o[63] = i[3].wrapping_add(i[15]); o[64] = i[4].wrapping_add(i[16]); o[65] = i[5].wrapping_add(i[17]); o[66] = i[6].wrapping_add(i[18]); o[67] = i[7].wrapping_add(i[19]); o[68] = i[8].wrapping_add(i[20]); o[69] = i[9].wrapping_add(i[21]); o[70] = i[10].wrapping_add(i[22]); o[71] = i[11].wrapping_add(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x3_i16(i: &[i16; 24], o: &mut [i16; 72]) -> bool {
    o[0] = i[0].wrapping_sub(i[12]); o[1] = i[1].wrapping_sub(i[13]); o[2] = i[2].wrapping_sub(i[14]); o[3] = i[3].wrapping_sub(i[15]); o[4] = i[4].wrapping_sub(i[16]); o[5] = i[5].wrapping_sub(i[17]); o[6] = i[6].wrapping_sub(i[18]); o[7] = i[7].wrapping_sub(i[19]); o[8] = i[8].wrapping_sub(i[20]); o[9] = i[9].wrapping_sub(i[21]); o[10] = i[10].wrapping_sub(i[22]); o[11] = i[11].wrapping_sub(i[23]);o[12] = i[0].wrapping_sub(i[12]); o[13] = i[1].wrapping_sub(i[13]); o[14] = i[2].wrapping_sub(i[14]); o[15] = i[3].wrapping_sub(i[15]); o[16] = i[4].wrapping_sub(i[16]); o[17] = i[5].wrapping_sub(i[17]); o[18] = i[6].wrapping_sub(i[18]); o[19] = i[7].wrapping_sub(i[19]); o[20] = i[8].wrapping_sub(i[20]); o[21] = i[9].wrapping_sub(i[21]); o[22] = i[10].wrapping_sub(i[22]); o[23] = i[11].wrapping_sub(i[23]);o[24] = i[0].wrapping_sub(i[12]); o[25] = i[1].wrapping_sub(i[13]); o[26] = i[2].wrapping_sub(i[14]); o[27] = i[3].wrapping_sub(i[15]); o[28] = i[4].wrapping_sub(i[16]); o[29] = i[5].wrapping_sub(i[17]); o[30] = i[6].wrapping_sub(i[18]); o[31] = i[7].wrapping_sub(i[19]); o[32] = i[8].wrapping_sub(i[20]); o[33] = i[9].wrapping_sub(i[21]); o[34] = i[10].wrapping_sub(i[22]); o[35] = i[11].wrapping_sub(i[23]);o[36] = i[0].wrapping_sub(i[12]); o[37] = i[1].wrapping_sub(i[13]); o[38] = i[2].wrapping_sub(i[14]); o[39] = i[3].wrapping_sub(i[15]); o[40] = i[4].wrapping_sub(i[16]); o[41] = i[5].wrapping_sub(i[17]); o[42] = i[6].wrapping_sub(i[18]); o[43] = i[7].wrapping_sub(i[19]); o[44] = i[8].wrapping_sub(i[20]); o[45] = i[9].wrapping_sub(i[21]); o[46] = i[10].wrapping_sub(i[22]); o[47] = i[11].wrapping_sub(i[23]);o[48] = i[0].wrapping_sub(i[12]); o[49] = i[1].wrapping_sub(i[13]); o[50] = i[2].wrapping_sub(i[14]); o[51] = i[3].wrapping_sub(i[15]); o[52] = i[4].wrapping_sub(i[16]); o[53] = i[5].wrapping_sub(i[17]); o[54] = i[6].wrapping_sub(i[18]); o[55] = i[7].wrapping_sub(i[19]); o[56] = i[8].wrapping_sub(i[20]); o[57] = i[9].wrapping_sub(i[21]); o[58] = i[10].wrapping_sub(i[22]); o[59] = i[11].wrapping_sub(i[23]);o[60] = i[0].wrapping_sub(i[12]); o[61] = i[1].wrapping_sub(i[13]); o[62] = i[2].wrapping_sub(i[14]); o[63] = i[3].wrapping_sub(i[15]); o[64] = i[4].wrapping_sub(i[16]); o[65] = i[5].wrapping_sub(i[17]); o[66] = i[6].wrapping_sub(i[18]); o[67] = i[7].wrapping_sub(i[19]); o[68] = i[8].wrapping_sub(i[20]); o[69] = i[9].wrapping_sub(i[21]); o[70] = i[10].wrapping_sub(i[22]); o[71] = i[11].wrapping_sub(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 24]) -> bool {
    let s = i[8]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); o[12] = i[4].wrapping_mul(s); o[13] = i[5].wrapping_mul(s); o[14] = i[6].wrapping_mul(s); o[15] = i[7].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 24]) -> bool {
    let s = i[8]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; o[12] = i[4] / s; o[13] = i[5] / s; o[14] = i[6] / s; o[15] = i[7] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 24]) -> bool {
    let s = i[8]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; o[12] = i[4] % s; o[13] = i[5] % s; o[14] = i[6] % s; o[15] = i[7] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x2_i16(i: &[i16; 16], o: &mut [i16; 48]) -> bool {
    o[0] = i[0].wrapping_add(i[8]); o[1] = i[1].wrapping_add(i[9]); o[2] = i[2].wrapping_add(i[10]); o[3] = i[3].wrapping_add(i[11]); o[4] = i[4].wrapping_add(i[12]); o[5] = i[5].wrapping_add(i[13]); o[6] = i[6].wrapping_add(i[14]); o[7] = i[7].wrapping_add(i[15]);o[8] = i[0].wrapping_add(i[8]); o[9] = i[1].wrapping_add(i[9]); o[10] = i[2].wrapping_add(i[10]); o[11] = i[3].wrapping_add(i[11]); o[12] = i[4].wrapping_add(i[12]); o[13] = i[5].wrapping_add(i[13]); o[14] = i[6].wrapping_add(i[14]); o[15] = i[7].wrapping_add(i[15]);o[16] = i[0].wrapping_add(i[8]); o[17] = i[1].wrapping_add(i[9]); o[18] = i[2].wrapping_add(i[10]); o[19] = i[3].wrapping_add(i[11]); o[20] = i[4].wrapping_add(i[12]); o[21] = i[5].wrapping_add(i[13]); o[22] = i[6].wrapping_add(i[14]); o[23] = i[7].wrapping_add(i[15]);o[24] = i[0].wrapping_add(i[8]); o[25] = i[1].wrapping_add(i[9]); o[26] = i[2].wrapping_add(i[10]); o[27] = i[3].wrapping_add(i[11]); o[28] = i[4].wrapping_add(i[12]); o[29] = i[5].wrapping_add(i[13]); o[30] = i[6].wrapping_add(i[14]); o[31] = i[7].wrapping_add(i[15]);o[32] = i[0].wrapping_add(i[8]); o[33] = i[1].wrapping_add(i[9]); o[34] = i[2].wrapping_add(i[10]); o[35] = i[3].wrapping_add(i[11]); o[36] = i[4].wrapping_add(i[12]); o[37] = i[5].wrapping_add(i[13]); o[38] = i[6].wrapping_add(i[14]); o[39] = i[7].wrapping_add(i[15]);o[40] = i[0].wrapping_add(i[8]); o[41] = i[1].wrapping_add(i[9]); o[42] = i[2].wrapping_add(i[10]); o[43] = i[3].wrapping_add(i[11]); o[44] = i[4].wrapping_add(i[12]); o[45] = i[5].wrapping_add(i[13]); o[46] = i[6].wrapping_add(i[14]); o[47] = i[7].wrapping_add(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x2_i16(i: &[i16; 16], o: &mut [i16; 48]) -> bool {
    o[0] = i[0].wrapping_sub(i[8]); o[1] = i[1].wrapping_sub(i[9]); o[2] = i[2].wrapping_sub(i[10]); o[3] = i[3].wrapping_sub(i[11]); o[4] = i[4].wrapping_sub(i[12]); o[5] = i[5].wrapping_sub(i[13]); o[6] = i[6].wrapping_sub(i[14]); o[7] = i[7].wrapping_sub(i[15]);o[8] = i[0].wrapping_sub(i[8]); o[9] = i[1].wrapping_sub(i[9]); o[10] = i[2].wrapping_sub(i[10]); o[11] = i[3].wrapping_sub(i[11]); o[12] = i[4].wrapping_sub(i[12]); o[13] = i[5].wrapping_sub(i[13]); o[14] = i[6].wrapping_sub(i[14]); o[15] = i[7].wrapping_sub(i[15]);o[16] = i[0].wrapping_sub(i[8]); o[17] = i[1].wrapping_sub(i[9]); o[18] = i[2].wrapping_sub(i[10]); o[19] = i[3].wrapping_sub(i[11]); o[20] = i[4].wrapping_sub(i[12]); o[21] = i[5].wrapping_sub(i[13]); o[22] = i[6].wrapping_sub(i[14]); o[23] = i[7].wrapping_sub(i[15]);o[24] = i[0].wrapping_sub(i[8]); o[25] = i[1].wrapping_sub(i[9]); o[26] = i[2].wrapping_sub(i[10]); o[27] = i[3].wrapping_sub(i[11]); o[28] = i[4].wrapping_sub(i[12]); o[29] = i[5].wrapping_sub(i[13]); o[30] = i[6].wrapping_sub(i[14]); o[31] = i[7].wrapping_sub(i[15]);o[32] = i[0].wrapping_sub(i[8]); o[33] = i[1].wrapping_sub(i[9]); o[34] = i[2].wrapping_sub(i[10]); o[35] = i[3].wrapping_sub(i[11]); o[36] = i[4].wrapping_sub(i[12]); o[37] = i[5].wrapping_sub(i[13]); o[38] = i[6].wrapping_sub(i[14]); o[39] = i[7].wrapping_sub(i[15]);o[40] = i[0].wrapping_sub(i[8]); o[41] = i[1].wrapping_sub(i[9]); o[42] = i[2].wrapping_sub(i[10]); o[43] = i[3].wrapping_sub(i[11]); o[44] = i[4].wrapping_sub(i[12]); o[45] = i[5].wrapping_sub(i[13]); o[46] = i[6].wrapping_sub(i[14]); o[47] = i[7].wrapping_sub(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_mul_scalar_quaternion_i16(i: &[i16; 5], o: &mut [i16; 20]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_div_scalar_quaternion_i16(i: &[i16; 5], o: &mut [i16; 20]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_rem_scalar_quaternion_i16(i: &[i16; 5], o: &mut [i16; 20]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_add_quaternion_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_sub_quaternion_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_mul_scalar_complex_i16(i: &[i16; 3], o: &mut [i16; 10]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_scalar_complex_i16(i: &[i16; 3], o: &mut [i16; 10]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s;o[6] = i[0] / s; o[7] = i[1] / s;o[8] = i[0] / s; o[9] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_rem_scalar_complex_i16(i: &[i16; 3], o: &mut [i16; 10]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s;o[6] = i[0] % s; o[7] = i[1] % s;o[8] = i[0] % s; o[9] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_add_complex_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_sub_complex_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_complex_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let d = (i[2].wrapping_mul(i[2])).wrapping_add(i[3].wrapping_mul(i[3]));if d == 0 || d == -1 { return false; }o[0] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[1] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[2] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[3] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[4] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[5] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[6] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[7] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[8] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[9] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[10] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[11] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let s = i[3]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let s = i[1]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x2_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x2_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 27]) -> bool {
    let s = i[9]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s);o[9] = i[0].wrapping_mul(s); o[10] = i[1].wrapping_mul(s); o[11] = i[2].wrapping_mul(s); o[12] = i[3].wrapping_mul(s); o[13] = i[4].wrapping_mul(s); o[14] = i[5].wrapping_mul(s); o[15] = i[6].wrapping_mul(s); o[16] = i[7].wrapping_mul(s); o[17] = i[8].wrapping_mul(s);o[18] = i[0].wrapping_mul(s); o[19] = i[1].wrapping_mul(s); o[20] = i[2].wrapping_mul(s); o[21] = i[3].wrapping_mul(s); o[22] = i[4].wrapping_mul(s); o[23] = i[5].wrapping_mul(s); o[24] = i[6].wrapping_mul(s); o[25] = i[7].wrapping_mul(s); o[26] = i[8].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 27]) -> bool {
    let s = i[9]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s;o[9] = i[0] / s; o[10] = i[1] / s; o[11] = i[2] / s; o[12] = i[3] / s; o[13] = i[4] / s; o[14] = i[5] / s; o[15] = i[6] / s; o[16] = i[7] / s; o[17] = i[8] / s;o[18] = i[0] / s; o[19] = i[1] / s; o[20] = i[2] / s; o[21] = i[3] / s; o[22] = i[4] / s; o[23] = i[5] / s; o[24] = i[6] / s; o[25] = i[7] / s; o[26] = i[8] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 27]) -> bool {
    let s = i[9]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s;o[9] = i[0] % s; o[10] = i[1] % s; o[11] = i[2] % s; o[12] = i[3] % s; o[13] = i[4] % s; o[14] = i[5] % s; o[15] = i[6] % s; o[16] = i[7] % s; o[17] = i[8] % s;o[18] = i[0] % s; o[19] = i[1] % s; o[20] = i[2] % s; o[21] = i[3] % s; o[22] = i[4] % s; o[23] = i[5] % s; o[24] = i[6] % s; o[25] = i[7] % s; o[26] = i[8] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x3_i32(i: &[i32; 18], o: &mut [i32; 54]) -> bool {
    o[0] = i[0].wrapping_add(i[9]); o[1] = i[1].wrapping_add(i[10]); o[2] = i[2].wrapping_add(i[11]); o[3] = i[3].wrapping_add(i[12]); o[4] = i[4].wrapping_add(i[13]); o[5] = i[5].wrapping_add(i[14]); o[6] = i[6].wrapping_add(i[15]); o[7] = i[7].wrapping_add(i[16]); o[8] = i[8].wrapping_add(i[17]);o[9] = i[0].wrapping_add(i[9]); o[10] = i[1].wrapping_add(i[10]); o[11] = i[2].wrapping_add(i[11]); o[12] = i[3].wrapping_add(i[12]); o[13] = i[4].wrapping_add(i[13]); o[14] = i[5].wrapping_add(i[14]); o[15] = i[6].wrapping_add(i[15]); o[16] = i[7].wrapping_add(i[16]); o[17] = i[8].wrapping_add(i[17]);o[18] = i[0].wrapping_add(i[9]); o[19] = i[1].wrapping_add(i[10]); o[20] = i[2].wrapping_add(i[11]); o[21] = i[3].wrapping_add(i[12]); o[22] = i[4].wrapping_add(i[13]); o[23] = i[5].wrapping_add(i[14]); o[24] = i[6].wrapping_add(i[15]); o[25] = i[7].wrapping_add(i[16]); o[26] = i[8].wrapping_add(i[17]);o[27] = i[0].wrapping_add(i[9]); o[28] = i[1].wrapping_add(i[10]); o[29] = i[2].wrapping_add(i[11]); o[30] = i[3].wrapping_add(i[12]); o[31] = i[4].wrapping_add(i[13]); o[32] = i[5].wrapping_add(i[14]); o[33] = i[6].wrapping_add(i[15]); o[34] = i[7].wrapping_add(i[16]); o[35] = i[8].wrapping_add(i[17]);o[36] = i[0].wrapping_add(i[9]); o[37] = i[1].wrapping_add(i[10]); o[38] = i[2].wrapping_add(i[11]); o[39] = i[3].wrapping_add(i[12]); o[40] = i[4].wrapping_add(i[13]); o[41] = i[5].wrapping_add(i[14]); o[42] = i[6].wrapping_add(i[15]); o[43] = i[7].wrapping_add(i[16]); o[44] = i[8].wrapping_add(i[17]);o[45] = i[0].wrapping_add(i[9]); o[46] = i[1].wrapping_add(i[10]); o[47] = i[2].wrapping_add(i[11]); o[48] = i[3].wrapping_add(i[12]); o[49] = i[4].wrapping_add(i[13]); o[50] = i[5].wrapping_add(i[14]); o[51] = i[6].wrapping_add(i[15]); o[52] = i[7].wrapping_add(i[16]); o[53] = i[8].wrapping_add(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x3_i32(i: &[i32; 18], o: &mut [i32; 54]) -> bool {
    o[0] = i[0].wrapping_sub(i[9]); o[1] = i[1].wrapping_sub(i[10]); o[2] = i[2].wrapping_sub(i[11]); o[3] = i[3].wrapping_sub(i[12]); o[4] = i[4].wrapping_sub(i[13]); o[5] = i[5].wrapping_sub(i[14]); o[6] = i[6].wrapping_sub(i[15]); o[7] = i[7].wrapping_sub(i[16]); o[8] = i[8].wrapping_sub(i[17]);o[9] = i[0].wrapping_sub(i[9]); o[10] = i[1].wrapping_sub(i[10]); o[11] = i[2].wrapping_sub(i[11]); o[12] = i[3].wrapping_sub(i[12]); o[13] = i[4].wrapping_sub(i[13]); o[14] = i[5].wrapping_sub(i[14]); o[15] = i[6].wrapping_sub(i[15]); o[16] = i[7].wrapping_sub(i[16]); o[17] = i[8].wrapping_sub(i[17]);o[18] = i[0].wrapping_sub(i[9]); o[19] = i[1].wrapping_sub(i[10]); o[20] = i[2].wrapping_sub(i[11]); o[21] = i[3].wrapping_sub(i[12]); o[22] = i[4].wrapping_sub(i[13]); o[23] = i[5].wrapping_sub(i[14]); o[24] = i[6].wrapping_sub(i[15]); o[25] = i[7].wrapping_sub(i[16]); o[26] = i[8].wrapping_sub(i[17]);o[27] = i[0].wrapping_sub(i[9]); o[28] = i[1].wrapping_sub(i[10]); o[29] = i[2].wrapping_sub(i[11]); o[30] = i[3].wrapping_sub(i[12]); o[31] = i[4].wrapping_sub(i[13]); o[32] = i[5].wrapping_sub(i[14]); o[33] = i[6].wrapping_sub(i[15]); o[34] = i[7].wrapping_sub(i[16]); o[35] = i[8].wrapping_sub(i[17]);o[36] = i[0].wrapping_sub(i[9]); o[37] = i[1].wrapping_sub(i[10]); o[38] = i[2].wrapping_sub(i[11]); o[39] = i[3].wrapping_sub(i[12]); o[40] = i[4].wrapping_sub(i[13]); o[41] = i[5].wrapping_sub(i[14]); o[42] = i[6].wrapping_sub(i[15]); o[43] = i[7].wrapping_sub(i[16]); o[44] = i[8].wrapping_sub(i[17]);o[45] = i[0].wrapping_sub(i[9]); o[46] = i[1].wrapping_sub(i[10]); o[47] = i[2].wrapping_sub(i[11]); o[48] = i[3].wrapping_sub(i[12]); o[49] = i[4].wrapping_sub(i[13]); o[50] = i[5].wrapping_sub(i[14]); o[51] = i[6].wrapping_sub(i[15]); o[52] = i[7].wrapping_sub(i[16]); o[53] = i[8].wrapping_sub(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 48]) -> bool {
    let s = i[16]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s); o[12] = i[12].wrapping_mul(s); o[13] = i[13].wrapping_mul(s); o[14] = i[14].wrapping_mul(s); o[15] = i[15].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); o[24] = i[8].wrapping_mul(s); o[25] = i[9].wrapping_mul(s); o[26] = i[10].wrapping_mul(s); o[27] = i[11].wrapping_mul(s); o[28] = i[12].wrapping_mul(s); o[29] = i[13].wrapping_mul(s); o[30] = i[14].wrapping_mul(s); o[31] = i[15].wrapping_mul(s);o[32] = i[0].wrapping_mul(s); o[33] = i[1].wrapping_mul(s); o[34] = i[2].wrapping_mul(s); o[35] = i[3].wrapping_mul(s); o[36] = i[4].wrapping_mul(s); o[37] = i[5].wrapping_mul(s); o[38] = i[6].wrapping_mul(s); o[39] = i[7].wrapping_mul(s); o[40] = i[8].wrapping_mul(s); o[41] = i[9].wrapping_mul(s); o[42] = i[10].wrapping_mul(s); o[43] = i[11].wrapping_mul(s); o[44] = i[12].wrapping_mul(s); o[45] = i[13].wrapping_mul(s); o[46] = i[14].wrapping_mul(s); o[47] = i[15].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 48]) -> bool {
    let s = i[16]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s; o[12] = i[12] / s; o[13] = i[13] / s; o[14] = i[14] / s; o[15] = i[15] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; o[24] = i[8] / s; o[25] = i[9] / s; o[26] = i[10] / s; o[27] = i[11] / s; o[28] = i[12] / s; o[29] = i[13] / s; o[30] = i[14] / s; o[31] = i[15] / s;o[32] = i[0] / s; o[33] = i[1] / s; o[34] = i[2] / s; o[35] = i[3] / s; o[36] = i[4] / s; o[37] = i[5] / s; o[38] = i[6] / s; o[39] = i[7] / s; o[40] = i[8] / s; o[41] = i[9] / s; o[42] = i[10] / s; o[43] = i[11] / s; o[44] = i[12] / s; o[45] = i[13] / s; o[46] = i[14] / s; o[47] = i[15] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 48]) -> bool {
    let s = i[16]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s; o[12] = i[12] % s; o[13] = i[13] % s; o[14] = i[14] % s; o[15] = i[15] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; o[24] = i[8] % s; o[25] = i[9] % s; o[26] = i[10] % s; o[27] = i[11] % s; o[28] = i[12] % s; o[29] = i[13] % s; o[30] = i[14] % s; o[31] = i[15] % s;o[32] = i[0] % s; o[33] = i[1] % s; o[34] = i[2] % s; o[35] = i[3] % s; o[36] = i[4] % s; o[37] = i[5] % s; o[38] = i[6] % s; o[39] = i[7] % s; o[40] = i[8] % s; o[41] = i[9] % s; o[42] = i[10] % s; o[43] = i[11] % s; o[44] = i[12] % s; o[45] = i[13] % s; o[46] = i[14] % s; o[47] = i[15] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x4_i32(i: &[i32; 32], o: &mut [i32; 96]) -> bool {
    o[0] = i[0].wrapping_add(i[16]); o[1] = i[1].wrapping_add(i[17]); o[2] = i[2].wrapping_add(i[18]); o[3] = i[3].wrapping_add(i[19]); o[4] = i[4].wrapping_add(i[20]); o[5] = i[5].wrapping_add(i[21]); o[6] = i[6].wrapping_add(i[22]); o[7] = i[7].wrapping_add(i[23]); o[8] = i[8].wrapping_add(i[24]); o[9] = i[9].wrapping_add(i[25]); o[10] = i[10].wrapping_add(i[26]); o[11] = i[11].wrapping_add(i[27]); o[12] = i[12].wrapping_add(i[28]); o[13] = i[13].wrapping_add(i[29]); o[14] = i[14].wrapping_add(i[30]); o[15] = i[15].wrapping_add(i[31]);o[16] = i[0].wrapping_add(i[16]); o[17] = i[1].wrapping_add(i[17]); o[18] = i[2].wrapping_add(i[18]); o[19] = i[3].wrapping_add(i[19]); o[20] = i[4].wrapping_add(i[20]); o[21] = i[5].wrapping_add(i[21]); o[22] = i[6].wrapping_add(i[22]); o[23] = i[7].wrapping_add(i[23]); o[24] = i[8].wrapping_add(i[24]); o[25] = i[9].wrapping_add(i[25]); o[26] = i[10].wrapping_add(i[26]); o[27] = i[11].wrapping_add(i[27]); o[28] = i[12].wrapping_add(i[28]); o[29] = i[13].wrapping_add(i[29]); o[30] = i[14].wrapping_add(i[30]); o[31] = i[15].wrapping_add(i[31]);o[32] = i[0].wrapping_add(i[16]); o[33] = i[1].wrapping_add(i[17]); o[34] = i[2].wrapping_add(i[18]); o[35] = i[3].wrapping_add(i[19]); o[36] = i[4].wrapping_add(i[20]); o[37] = i[5].wrapping_add(i[21]); o[38] = i[6].wrapping_add(i[22]); o[39] = i[7].wrapping_add(i[23]); o[40] = i[8].wrapping_add(i[24]); o[41] = i[9].wrapping_add(i[25]); o[42] = i[10].wrapping_add(i[26]); o[43] = i[11].wrapping_add(i[27]); o[44] = i[12].wrapping_add(i[28]); o[45] = i[13].wrapping_add(i[29]); o[46] = i[14].wrapping_add(i[30]); o[47] = i[15].wrapping_add(i[31]);o[48] = i[0].wrapping_add(i[16]); o[49] = i[1].wrapping_add(i[17]); o[50] = i[2].wrapping_add(i[18]); o[51] = i[3].wrapping_add(i[19]); o[52] = i[4].wrapping_add(i[20]); o[53] = i[5].wrapping_add(i[21]); o[54] = i[6].wrapping_add(i[22]); o[55] = i[7].wrapping_add(i[23]); o[56] = i[8].wrapping_add(i[24]); o[57] = i[9].wrapping_add(i[25]); o[58] = i[10].wrapping_add(i[26]); o[59] = i[11].wrapping_add(i[27]); o[60] = i[12].wrapping_add(i[28]); o[61] = i[13].wrapping_add(i[29]); o[62] = i[14].wrapping_add(i[30]); o[63] = i[15].wrapping_add(i[31]);o[64] = i[0].wrapping_add(i[16]); o[65] = i[1].wrapping_add(i[17]); o[66] = i[2].wrapping_add(i[18]); o[67] = i[3].wrapping_add(i[19]); o[68] = i[4].wrapping_add(i[20]); o[69] = i[5].wrapping_add(i[21]); o[70] = i[6].wrapping_add(i[22]); o[71] = i[7].wrapping_add(i[23]); o[72] = i[8].wrapping_add(i[24]); o[73] = i[9].wrapping_add(i[25]); o[74] = i[10].wrapping_add(i[26]); o[75] = i[11].wrapping_add(i[27]); o[76] = i[12].wrapping_add(i[28]); o[77] = i[13].wrapping_add(i[29]); o[78] = i[14].wrapping_add(i[30]); o[79] = i[15].wrapping_add(i[31]);o[80] = i[0].wrapping_add(i[16]); o[81] = i[1].wrapping_add(i[17]); o[82] = i[2].wrapping_add(i[18]); o[83] = i[3].wrapping_add(i[19]); o[84] = i[4].wrapping_add(i[20]); o[85] = i[5].wrapping_add(i[21]); o[86] = i[6].wrapping_add(i[22]); o[87] = i[7].wrapping_add(i[23]); o[88] = i[8].wrapping_add(i[24]); o[89] = i[9].wrapping_add(i[25]); o[90] = i[10].wrapping_add(i[26]); o[91] = i[11].wrapping_add(i[27]); o[92] = i[12].wrapping_add(i[28]); o[93] = i[13].wrapping_add(i[29]); o[94] = i[14].wrapping_add(i[30]); o[95] = i[15].wrapping_add(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x4_i32(i: &[i32; 32], o: &mut [i32; 96]) -> bool {
    o[0] = i[0].wrapping_sub(i[16]); o[1] = i[1].wrapping_sub(i[17]); o[2] = i[2].wrapping_sub(i[18]); o[3] = i[3].wrapping_sub(i[19]); o[4] = i[4].wrapping_sub(i[20]); o[5] = i[5].wrapping_sub(i[21]); o[6] = i[6].wrapping_sub(i[22]); o[7] = i[7].wrapping_sub(i[23]); o[8] = i[8].wrapping_sub(i[24]); o[9] = i[9].wrapping_sub(i[25]); o[10] = i[10].wrapping_sub(i[26]); o[11] = i[11].wrapping_sub(i[27]); o[12] = i[12].wrapping_sub(i[28]); o[13] = i[13].wrapping_sub(i[29]); o[14] = i[14].wrapping_sub(i[30]); o[15] = i[15].wrapping_sub(i[31]);o[16] = i[0].wrapping_sub(i[16]); o[17] = i[1].wrapping_sub(i[17]); o[18] = i[2].wrapping_sub(i[18]); o[19] = i[3].wrapping_sub(i[19]); o[20] = i[4].wrapping_sub(i[20]); o[21] = i[5].wrapping_sub(i[21]); o[22] = i[6].wrapping_sub(i[22]); o[23] = i[7].wrapping_sub(i[23]); o[24] = i[8].wrapping_sub(i[24]); o[25] = i[9].wrapping_sub(i[25]); o[26] = i[10].wrapping_sub(i[26]); o[27] = i[11].wrapping_sub(i[27]); o[28] = i[12].wrapping_sub(i[28]); o[29] = i[13].wrapping_sub(i[29]); o[30] = i[14].wrapping_sub(i[30]); o[31] = i[15].wrapping_sub(i[31]);o[32] = i[0].wrapping_sub(i[16]); o[33] = i[1].wrapping_sub(i[17]); o[34] = i[2].wrapping_sub(i[18]); o[35] = i[3].wrapping_sub(i[19]); o[36] = i[4].wrapping_sub(i[20]); o[37] = i[5].wrapping_sub(i[21]); o[38] = i[6].wrapping_sub(i[22]); o[39] = i[7].wrapping_sub(i[23]); o[40] = i[8].wrapping_sub(i[24]); o[41] = i[9].wrapping_sub(i[25]); o[42] = i[10].wrapping_sub(i[26]); o[43] = i[11].wrapping_sub(i[27]); o[44] = i[12].wrapping_sub(i[28]); o[45] = i[13].wrapping_sub(i[29]); o[46] = i[14].wrapping_sub(i[30]); o[47] = i[15].wrapping_sub(i[31]);o[48] = i[0].wrapping_sub(i[16]); o[49] = i[1].wrapping_sub(i[17]); o[50] = i[2].wrapping_sub(i[18]); o[51] = i[3].wrapping_sub(i[19]); o[52] = i[4].wrapping_sub(i[20]); o[53] = i[5].wrapping_sub(i[21]); o[54] = i[6].wrapping_sub(i[22]); o[55] = i[7].wrapping_sub(i[23]); o[56] = i[8].wrapping_sub(i[24]); o[57] = i[9].wrapping_sub(i[25]); o[58] = i[10].wrapping_sub(i[26]); o[59] = i[11].wrapping_sub(i[27]); o[60] = i[12].wrapping_sub(i[28]); o[61] = i[13].wrapping_sub(i[29]); o[62] = i[14].wrapping_sub(i[30]); o[63] = i[15].wrapping_sub(i[31]);o[64] = i[0].wrapping_sub(i[16]); o[65] = i[1].wrapping_sub(i[17]); o[66] = i[2].wrapping_sub(i[18]); o[67] = i[3].wrapping_sub(i[19]); o[68] = i[4].wrapping_sub(i[20]); o[69] = i[5].wrapping_sub(i[21]); o[70] = i[6].wrapping_sub(i[22]); o[71] = i[7].wrapping_sub(i[23]); o[72] = i[8].wrapping_sub(i[24]); o[73] = i[9].wrapping_sub(i[25]); o[74] = i[10].wrapping_sub(i[26]); o[75] = i[11].wrapping_sub(i[27]); o[76] = i[12].wrapping_sub(i[28]); o[77] = i[13].wrapping_sub(i[29]); o[78] = i[14].wrapping_sub(i[30]); o[79] = i[15].wrapping_sub(i[31]);o[80] = i[0].wrapping_sub(i[16]); o[81] = i[1].wrapping_sub(i[17]); o[82] = i[2].wrapping_sub(i[18]); o[83] = i[3].wrapping_sub(i[19]); o[84] = i[4].wrapping_sub(i[20]); o[85] = i[5].wrapping_sub(i[21]); o[86] = i[6].wrapping_sub(i[22]); o[87] = i[7].wrapping_sub(i[23]); o[88] = i[8].wrapping_sub(i[24]); o[89] = i[9].wrapping_sub(i[25]); o[90] = i[10].wrapping_sub(i[26]); o[91] = i[11].wrapping_sub(i[27]); o[92] = i[12].wrapping_sub(i[28]); o[93] = i[13].wrapping_sub(i[29]); o[94] = i[14].wrapping_sub(i[30]); o[95] = i[15].wrapping_sub(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x3_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x3_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let s = i[6]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x2_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x2_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 36]) -> bool {
    let s = i[12]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); o[18] = i[6].wrapping_mul(s); o[19] = i[7].wrapping_mul(s); o[20] = i[8].wrapping_mul(s); o[21] = i[9].wrapping_mul(s); o[22] = i[10].wrapping_mul(s); o[23] = i[11].wrapping_mul(s);o[24] = i[0].wrapping_mul(s); o[25] = i[1].wrapping_mul(s); o[26] = i[2].wrapping_mul(s); o[27] = i[3].wrapping_mul(s); o[28] = i[4].wrapping_mul(s); o[29] = i[5].wrapping_mul(s); o[30] = i[6].wrapping_mul(s); o[31] = i[7].wrapping_mul(s); o[32] = i[8].wrapping_mul(s); o[33] = i[9].wrapping_mul(s); o[34] = i[10].wrapping_mul(s); o[35] = i[11].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 36]) -> bool {
    let s = i[12]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; o[18] = i[6] / s; o[19] = i[7] / s; o[20] = i[8] / s; o[21] = i[9] / s; o[22] = i[10] / s; o[23] = i[11] / s;o[24] = i[0] / s; o[25] = i[1] / s; o[26] = i[2] / s; o[27] = i[3] / s; o[28] = i[4] / s; o[29] = i[5] / s; o[30] = i[6] / s; o[31] = i[7] / s; o[32] = i[8] / s; o[33] = i[9] / s; o[34] = i[10] / s; o[35] = i[11] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 36]) -> bool {
    let s = i[12]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; o[18] = i[6] % s; o[19] = i[7] % s; o[20] = i[8] % s; o[21] = i[9] % s; o[22] = i[10] % s; o[23] = i[11] % s;o[24] = i[0] % s; o[25] = i[1] % s; o[26] = i[2] % s; o[27] = i[3] % s; o[28] = i[4] % s; o[29] = i[5] % s; o[30] = i[6] % s; o[31] = i[7] % s; o[32] = i[8] % s; o[33] = i[9] % s; o[34] = i[10] % s; o[35] = i[11] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x3_i32(i: &[i32; 24], o: &mut [i32; 72]) -> bool {
    o[0] = i[0].wrapping_add(i[12]); o[1] = i[1].wrapping_add(i[13]); o[2] = i[2].wrapping_add(i[14]); o[3] = i[3].wrapping_add(i[15]); o[4] = i[4].wrapping_add(i[16]); o[5] = i[5].wrapping_add(i[17]); o[6] = i[6].wrapping_add(i[18]); o[7] = i[7].wrapping_add(i[19]); o[8] = i[8].wrapping_add(i[20]); o[9] = i[9].wrapping_add(i[21]); o[10] = i[10].wrapping_add(i[22]); o[11] = i[11].wrapping_add(i[23]);o[12] = i[0].wrapping_add(i[12]); o[13] = i[1].wrapping_add(i[13]); o[14] = i[2].wrapping_add(i[14]); o[15] = i[3].wrapping_add(i[15]); o[16] = i[4].wrapping_add(i[16]); o[17] = i[5].wrapping_add(i[17]); o[18] = i[6].wrapping_add(i[18]); o[19] = i[7].wrapping_add(i[19]); o[20] = i[8].wrapping_add(i[20]); o[21] = i[9].wrapping_add(i[21]); o[22] = i[10].wrapping_add(i[22]); o[23] = i[11].wrapping_add(i[23]);o[24] = i[0].wrapping_add(i[12]); o[25] = i[1].wrapping_add(i[13]); o[26] = i[2].wrapping_add(i[14]); o[27] = i[3].wrapping_add(i[15]); o[28] = i[4].wrapping_add(i[16]); o[29] = i[5].wrapping_add(i[17]); o[30] = i[6].wrapping_add(i[18]); o[31] = i[7].wrapping_add(i[19]); o[32] = i[8].wrapping_add(i[20]); o[33] = i[9].wrapping_add(i[21]); o[34] = i[10].wrapping_add(i[22]); o[35] = i[11].wrapping_add(i[23]);o[36] = i[0].wrapping_add(i[12]); o[37] = i[1].wrapping_add(i[13]); o[38] = i[2].wrapping_add(i[14]); o[39] = i[3].wrapping_add(i[15]); o[40] = i[4].wrapping_add(i[16]); o[41] = i[5].wrapping_add(i[17]); o[42] = i[6].wrapping_add(i[18]); o[43] = i[7].wrapping_add(i[19]); o[44] = i[8].wrapping_add(i[20]); o[45] = i[9].wrapping_add(i[21]); o[46] = i[10].wrapping_add(i[22]); o[47] = i[11].wrapping_add(i[23]);o[48] = i[0].wrapping_add(i[12]); o[49] = i[1].wrapping_add(i[13]); o[50] = i[2].wrapping_add(i[14]); o[51] = i[3].wrapping_add(i[15]); o[52] = i[4].wrapping_add(i[16]); o[53] = i[5].wrapping_add(i[17]); o[54] = i[6].wrapping_add(i[18]); o[55] = i[7].wrapping_add(i[19]); o[56] = i[8].wrapping_add(i[20]); o[57] = i[9].wrapping_add(i[21]); o[58] = i[10].wrapping_add(i[22]); o[59] = i[11].wrapping_add(i[23]);o[60] = i[0].wrapping_add(i[12]); o[61] = i[1].wrapping_add(i[13]); o[62] = i[2].wrapping_add(i[14]); o[63] = i[3].wrapping_add(i[15]); o[64] = i[4].wrapping_add(i[16]); o[65] = i[5].wrapping_add(i[17]); o[66] = i[6].wrapping_add(i[18]); o[67] = i[7].wrapping_add(i[19]); o[68] = i[8].wrapping_add(i[20]); o[69] = i[9].wrapping_add(i[21]); o[70] = i[10].wrapping_add(i[22]); o[71] = i[11].wrapping_add(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x3_i32(i: &[i32; 24], o: &mut [i32; 72]) -> bool {
    o[0] = i[0].wrapping_sub(i[12]); o[1] = i[1].wrapping_sub(i[13]); o[2] = i[2].wrapping_sub(i[14]); o[3] = i[3].wrapping_sub(i[15]); o[4] = i[4].wrapping_sub(i[16]); o[5] = i[5].wrapping_sub(i[17]); o[6] = i[6].wrapping_sub(i[18]); o[7] = i[7].wrapping_sub(i[19]); o[8] = i[8].wrapping_sub(i[20]); o[9] = i[9].wrapping_sub(i[21]); o[10] = i[10].wrapping_sub(i[22]); o[11] = i[11].wrapping_sub(i[23]);o[12] = i[0].wrapping_sub(i[12]); o[13] = i[1].wrapping_sub(i[13]); o[14] = i[2].wrapping_sub(i[14]); o[15] = i[3].wrapping_sub(i[15]); o[16] = i[4].wrapping_sub(i[16]); o[17] = i[5].wrapping_sub(i[17]); o[18] = i[6].wrapping_sub(i[18]); o[19] = i[7].wrapping_sub(i[19]); o[20] = i[8].wrapping_sub(i[20]); o[21] = i[9].wrapping_sub(i[21]); o[22] = i[10].wrapping_sub(i[22]); o[23] = i[11].wrapping_sub(i[23]);o[24] = i[0].wrapping_sub(i[12]); o[25] = i[1].wrapping_sub(i[13]); o[26] = i[2].wrapping_sub(i[14]); o[27] = i[3].wrapping_sub(i[15]); o[28] = i[4].wrapping_sub(i[16]); o[29] = i[5].wrapping_sub(i[17]); o[30] = i[6].wrapping_sub(i[18]); o[31] = i[7].wrapping_sub(i[19]); o[32] = i[8].wrapping_sub(i[20]); o[33] = i[9].wrapping_sub(i[21]); o[34] = i[10].wrapping_sub(i[22]); o[35] = i[11].wrapping_sub(i[23]);o[36] = i[0].wrapping_sub(i[12]); o[37] = i[1].wrapping_sub(i[13]); o[38] = i[2].wrapping_sub(i[14]); o[39] = i[3].wrapping_sub(i[15]); o[40] = i[4].wrapping_sub(i[16]); o[41] = i[5].wrapping_sub(i[17]); o[42] = i[6].wrapping_sub(i[18]); o[43] = i[7].wrapping_sub(i[19]); o[44] = i[8].wrapping_sub(i[20]); o[45] = i[9].wrapping_sub(i[21]); o[46] = i[10].wrapping_sub(i[22]); o[47] = i[11].wrapping_sub(i[23]);o[48] = i[0].wrapping_sub(i[12]); o[49] = i[1].wrapping_sub(i[13]); o[50] = i[2].wrapping_sub(i[14]); o[51] = i[3].wrapping_sub(i[15]); o[52] = i[4].wrapping_sub(i[16]); o[53] = i[5].wrapping_sub(i[17]); o[54] = i[6].wrapping_sub(i[18]); o[55] = i[7].wrapping_sub(i[19]); o[56] = i[8].wrapping_sub(i[20]); o[57] = i[9].wrapping_sub(i[21]); o[58] = i[10].wrapping_sub(i[22]); o[59] = i[11].wrapping_sub(i[23]);o[60] = i[0].wrapping_sub(i[12]); o[61] = i[1].wrapping_sub(i[13]); o[62] = i[2].wrapping_sub(i[14]); o[63] = i[3].wrapping_sub(i[15]); o[64] = i[4].wrapping_sub(i[16]); o[65] = i[5].wrapping_sub(i[17]); o[66] = i[6].wrapping_sub(i[18]); o[67] = i[7].wrapping_sub(i[19]); o[68] = i[8].wrapping_sub(i[20]); o[69] = i[9].wrapping_sub(i[21]); o[70] = i[10].wrapping_sub(i[22]); o[71] = i[11].wrapping_sub(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 24]) -> bool {
    let s = i[8]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); o[12] = i[4].wrapping_mul(s); o[13] = i[5].wrapping_mul(s); o[14] = i[6].wrapping_mul(s); o[15] = i[7].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 24]) -> bool {
    let s = i[8]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; o[12] = i[4] / s; o[13] = i[5] / s; o[14] = i[6] / s; o[15] = i[7] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 24]) -> bool {
    let s = i[8]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; o[12] = i[4] % s; o[13] = i[5] % s; o[14] = i[6] % s; o[15] = i[7] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x2_i32(i: &[i32; 16], o: &mut [i32; 48]) -> bool {
    o[0] = i[0].wrapping_add(i[8]); o[1] = i[1].wrapping_add(i[9]); o[2] = i[2].wrapping_add(i[10]); o[3] = i[3].wrapping_add(i[11]); o[4] = i[4].wrapping_add(i[12]); o[5] = i[5].wrapping_add(i[13]); o[6] = i[6].wrapping_add(i[14]); o[7] = i[7].wrapping_add(i[15]);o[8] = i[0].wrapping_add(i[8]); o[9] = i[1].wrapping_add(i[9]); o[10] = i[2].wrapping_add(i[10]); o[11] = i[3].wrapping_add(i[11]); o[12] = i[4].wrapping_add(i[12]); o[13] = i[5].wrapping_add(i[13]); o[14] = i[6].wrapping_add(i[14]); o[15] = i[7].wrapping_add(i[15]);o[16] = i[0].wrapping_add(i[8]); o[17] = i[1].wrapping_add(i[9]); o[18] = i[2].wrapping_add(i[10]); o[19] = i[3].wrapping_add(i[11]); o[20] = i[4].wrapping_add(i[12]); o[21] = i[5].wrapping_add(i[13]); o[22] = i[6].wrapping_add(i[14]); o[23] = i[7].wrapping_add(i[15]);o[24] = i[0].wrapping_add(i[8]); o[25] = i[1].wrapping_add(i[9]); o[26] = i[2].wrapping_add(i[10]); o[27] = i[3].wrapping_add(i[11]); o[28] = i[4].wrapping_add(i[12]); o[29] = i[5].wrapping_add(i[13]); o[30] = i[6].wrapping_add(i[14]); o[31] = i[7].wrapping_add(i[15]);o[32] = i[0].wrapping_add(i[8]); o[33] = i[1].wrapping_add(i[9]); o[34] = i[2].wrapping_add(i[10]); o[35] = i[3].wrapping_add(i[11]); o[36] = i[4].wrapping_add(i[12]); o[37] = i[5].wrapping_add(i[13]); o[38] = i[6].wrapping_add(i[14]); o[39] = i[7].wrapping_add(i[15]);o[40] = i[0].wrapping_add(i[8]); o[41] = i[1].wrapping_add(i[9]); o[42] = i[2].wrapping_add(i[10]); o[43] = i[3].wrapping_add(i[11]); o[44] = i[4].wrapping_add(i[12]); o[45] = i[5].wrapping_add(i[13]); o[46] = i[6].wrapping_add(i[14]); o[47] = i[7].wrapping_add(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x2_i32(i: &[i32; 16], o: &mut [i32; 48]) -> bool {
    o[0] = i[0].wrapping_sub(i[8]); o[1] = i[1].wrapping_sub(i[9]); o[2] = i[2].wrapping_sub(i[10]); o[3] = i[3].wrapping_sub(i[11]); o[4] = i[4].wrapping_sub(i[12]); o[5] = i[5].wrapping_sub(i[13]); o[6] = i[6].wrapping_sub(i[14]); o[7] = i[7].wrapping_sub(i[15]);o[8] = i[0].wrapping_sub(i[8]); o[9] = i[1].wrapping_sub(i[9]); o[10] = i[2].wrapping_sub(i[10]); o[11] = i[3].wrapping_sub(i[11]); o[12] = i[4].wrapping_sub(i[12]); o[13] = i[5].wrapping_sub(i[13]); o[14] = i[6].wrapping_sub(i[14]); o[15] = i[7].wrapping_sub(i[15]);o[16] = i[0].wrapping_sub(i[8]); o[17] = i[1].wrapping_sub(i[9]); o[18] = i[2].wrapping_sub(i[10]); o[19] = i[3].wrapping_sub(i[11]); o[20] = i[4].wrapping_sub(i[12]); o[21] = i[5].wrapping_sub(i[13]); o[22] = i[6].wrapping_sub(i[14]); o[23] = i[7].wrapping_sub(i[15]);o[24] = i[0].wrapping_sub(i[8]); o[25] = i[1].wrapping_sub(i[9]); o[26] = i[2].wrapping_sub(i[10]); o[27] = i[3].wrapping_sub(i[11]); o[28] = i[4].wrapping_sub(i[12]); o[29] = i[5].wrapping_sub(i[13]); o[30] = i[6].wrapping_sub(i[14]); o[31] = i[7].wrapping_sub(i[15]);o[32] = i[0].wrapping_sub(i[8]); o[33] = i[1].wrapping_sub(i[9]); o[34] = i[2].wrapping_sub(i[10]); o[35] = i[3].wrapping_sub(i[11]); o[36] = i[4].wrapping_sub(i[12]); o[37] = i[5].wrapping_sub(i[13]); o[38] = i[6].wrapping_sub(i[14]); o[39] = i[7].wrapping_sub(i[15]);o[40] = i[0].wrapping_sub(i[8]); o[41] = i[1].wrapping_sub(i[9]); o[42] = i[2].wrapping_sub(i[10]); o[43] = i[3].wrapping_sub(i[11]); o[44] = i[4].wrapping_sub(i[12]); o[45] = i[5].wrapping_sub(i[13]); o[46] = i[6].wrapping_sub(i[14]); o[47] = i[7].wrapping_sub(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_mul_scalar_quaternion_i32(i: &[i32; 5], o: &mut [i32; 20]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_div_scalar_quaternion_i32(i: &[i32; 5], o: &mut [i32; 20]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_rem_scalar_quaternion_i32(i: &[i32; 5], o: &mut [i32; 20]) -> bool {
    let s = i[4]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_add_quaternion_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_sub_quaternion_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_mul_scalar_complex_i32(i: &[i32; 3], o: &mut [i32; 10]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_scalar_complex_i32(i: &[i32; 3], o: &mut [i32; 10]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s;o[6] = i[0] / s; o[7] = i[1] / s;o[8] = i[0] / s; o[9] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_rem_scalar_complex_i32(i: &[i32; 3], o: &mut [i32; 10]) -> bool {
    let s = i[2]; if s == 0 || s == -1 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s;o[6] = i[0] % s; o[7] = i[1] % s;o[8] = i[0] % s; o[9] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_add_complex_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_sub_complex_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_complex_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let d = (i[2].wrapping_mul(i[2])).wrapping_add(i[3].wrapping_mul(i[3]));if d == 0 || d == -1 { return false; }o[0] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[1] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[2] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[3] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[4] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[5] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[6] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[7] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[8] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[9] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d;o[10] = ((i[0].wrapping_mul(i[2])).wrapping_add(i[1].wrapping_mul(i[3]))) / d; o[11] = ((i[1].wrapping_mul(i[2])).wrapping_sub(i[0].wrapping_mul(i[3]))) / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let s = i[3]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s);o[3] = i[0].wrapping_mul(s); o[4] = i[1].wrapping_mul(s); o[5] = i[2].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let s = i[3]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    o[0] = i[0].wrapping_add(i[3]); o[1] = i[1].wrapping_add(i[4]); o[2] = i[2].wrapping_add(i[5]);o[3] = i[0].wrapping_add(i[3]); o[4] = i[1].wrapping_add(i[4]); o[5] = i[2].wrapping_add(i[5]);o[6] = i[0].wrapping_add(i[3]); o[7] = i[1].wrapping_add(i[4]); o[8] = i[2].wrapping_add(i[5]);o[9] = i[0].wrapping_add(i[3]); o[10] = i[1].wrapping_add(i[4]); o[11] = i[2].wrapping_add(i[5]);o[12] = i[0].wrapping_add(i[3]); o[13] = i[1].wrapping_add(i[4]); o[14] = i[2].wrapping_add(i[5]);o[15] = i[0].wrapping_add(i[3]); o[16] = i[1].wrapping_add(i[4]); o[17] = i[2].wrapping_add(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    o[0] = i[0].wrapping_sub(i[3]); o[1] = i[1].wrapping_sub(i[4]); o[2] = i[2].wrapping_sub(i[5]);o[3] = i[0].wrapping_sub(i[3]); o[4] = i[1].wrapping_sub(i[4]); o[5] = i[2].wrapping_sub(i[5]);o[6] = i[0].wrapping_sub(i[3]); o[7] = i[1].wrapping_sub(i[4]); o[8] = i[2].wrapping_sub(i[5]);o[9] = i[0].wrapping_sub(i[3]); o[10] = i[1].wrapping_sub(i[4]); o[11] = i[2].wrapping_sub(i[5]);o[12] = i[0].wrapping_sub(i[3]); o[13] = i[1].wrapping_sub(i[4]); o[14] = i[2].wrapping_sub(i[5]);o[15] = i[0].wrapping_sub(i[3]); o[16] = i[1].wrapping_sub(i[4]); o[17] = i[2].wrapping_sub(i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; o[0] = i[0].wrapping_mul(s);o[1] = i[0].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let s = i[1]; if s == 0 { return false; }o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_add(i[1]);o[1] = i[0].wrapping_add(i[1]);o[2] = i[0].wrapping_add(i[1]);o[3] = i[0].wrapping_add(i[1]);o[4] = i[0].wrapping_add(i[1]);o[5] = i[0].wrapping_add(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    o[0] = i[0].wrapping_sub(i[1]);o[1] = i[0].wrapping_sub(i[1]);o[2] = i[0].wrapping_sub(i[1]);o[3] = i[0].wrapping_sub(i[1]);o[4] = i[0].wrapping_sub(i[1]);o[5] = i[0].wrapping_sub(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x2_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x2_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 27]) -> bool {
    let s = i[9]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s);o[9] = i[0].wrapping_mul(s); o[10] = i[1].wrapping_mul(s); o[11] = i[2].wrapping_mul(s); o[12] = i[3].wrapping_mul(s); o[13] = i[4].wrapping_mul(s); o[14] = i[5].wrapping_mul(s); o[15] = i[6].wrapping_mul(s); o[16] = i[7].wrapping_mul(s); o[17] = i[8].wrapping_mul(s);o[18] = i[0].wrapping_mul(s); o[19] = i[1].wrapping_mul(s); o[20] = i[2].wrapping_mul(s); o[21] = i[3].wrapping_mul(s); o[22] = i[4].wrapping_mul(s); o[23] = i[5].wrapping_mul(s); o[24] = i[6].wrapping_mul(s); o[25] = i[7].wrapping_mul(s); o[26] = i[8].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 27]) -> bool {
    let s = i[9]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s;o[9] = i[0] / s; o[10] = i[1] / s; o[11] = i[2] / s; o[12] = i[3] / s; o[13] = i[4] / s; o[14] = i[5] / s; o[15] = i[6] / s; o[16] = i[7] / s; o[17] = i[8] / s;o[18] = i[0] / s; o[19] = i[1] / s; o[20] = i[2] / s; o[21] = i[3] / s; o[22] = i[4] / s; o[23] = i[5] / s; o[24] = i[6] / s; o[25] = i[7] / s; o[26] = i[8] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 27]) -> bool {
    let s = i[9]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s;o[9] = i[0] % s; o[10] = i[1] % s; o[11] = i[2] % s; o[12] = i[3] % s; o[13] = i[4] % s; o[14] = i[5] % s; o[15] = i[6] % s; o[16] = i[7] % s; o[17] = i[8] % s;o[18] = i[0] % s; o[19] = i[1] % s; o[20] = i[2] % s; o[21] = i[3] % s; o[22] = i[4] % s; o[23] = i[5] % s; o[24] = i[6] % s; o[25] = i[7] % s; o[26] = i[8] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x3_u64(i: &[u64; 18], o: &mut [u64; 54]) -> bool {
    o[0] = i[0].wrapping_add(i[9]); o[1] = i[1].wrapping_add(i[10]); o[2] = i[2].wrapping_add(i[11]); o[3] = i[3].wrapping_add(i[12]); o[4] = i[4].wrapping_add(i[13]); o[5] = i[5].wrapping_add(i[14]); o[6] = i[6].wrapping_add(i[15]); o[7] = i[7].wrapping_add(i[16]); o[8] = i[8].wrapping_add(i[17]);o[9] = i[0].wrapping_add(i[9]); o[10] = i[1].wrapping_add(i[10]); o[11] = i[2].wrapping_add(i[11]); o[12] = i[3].wrapping_add(i[12]); o[13] = i[4].wrapping_add(i[13]); o[14] = i[5].wrapping_add(i[14]); o[15] = i[6].wrapping_add(i[15]); o[16] = i[7].wrapping_add(i[16]); o[17] = i[8].wrapping_add(i[17]);o[18] = i[0].wrapping_add(i[9]); o[19] = i[1].wrapping_add(i[10]); o[20] = i[2].wrapping_add(i[11]); o[21] = i[3].wrapping_add(i[12]); o[22] = i[4].wrapping_add(i[13]); o[23] = i[5].wrapping_add(i[14]); o[24] = i[6].wrapping_add(i[15]); o[25] = i[7].wrapping_add(i[16]); o[26] = i[8].wrapping_add(i[17]);o[27] = i[0].wrapping_add(i[9]); o[28] = i[1].wrapping_add(i[10]); o[29] = i[2].wrapping_add(i[11]); o[30] = i[3].wrapping_add(i[12]); o[31] = i[4].wrapping_add(i[13]); o[32] = i[5].wrapping_add(i[14]); o[33] = i[6].wrapping_add(i[15]); o[34] = i[7].wrapping_add(i[16]); o[35] = i[8].wrapping_add(i[17]);o[36] = i[0].wrapping_add(i[9]); o[37] = i[1].wrapping_add(i[10]); o[38] = i[2].wrapping_add(i[11]); o[39] = i[3].wrapping_add(i[12]); o[40] = i[4].wrapping_add(i[13]); o[41] = i[5].wrapping_add(i[14]); o[42] = i[6].wrapping_add(i[15]); o[43] = i[7].wrapping_add(i[16]); o[44] = i[8].wrapping_add(i[17]);o[45] = i[0].wrapping_add(i[9]); o[46] = i[1].wrapping_add(i[10]); o[47] = i[2].wrapping_add(i[11]); o[48] = i[3].wrapping_add(i[12]); o[49] = i[4].wrapping_add(i[13]); o[50] = i[5].wrapping_add(i[14]); o[51] = i[6].wrapping_add(i[15]); o[52] = i[7].wrapping_add(i[16]); o[53] = i[8].wrapping_add(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x3_u64(i: &[u64; 18], o: &mut [u64; 54]) -> bool {
    o[0] = i[0].wrapping_sub(i[9]); o[1] = i[1].wrapping_sub(i[10]); o[2] = i[2].wrapping_sub(i[11]); o[3] = i[3].wrapping_sub(i[12]); o[4] = i[4].wrapping_sub(i[13]); o[5] = i[5].wrapping_sub(i[14]); o[6] = i[6].wrapping_sub(i[15]); o[7] = i[7].wrapping_sub(i[16]); o[8] = i[8].wrapping_sub(i[17]);o[9] = i[0].wrapping_sub(i[9]); o[10] = i[1].wrapping_sub(i[10]); o[11] = i[2].wrapping_sub(i[11]); o[12] = i[3].wrapping_sub(i[12]); o[13] = i[4].wrapping_sub(i[13]); o[14] = i[5].wrapping_sub(i[14]); o[15] = i[6].wrapping_sub(i[15]); o[16] = i[7].wrapping_sub(i[16]); o[17] = i[8].wrapping_sub(i[17]);o[18] = i[0].wrapping_sub(i[9]); o[19] = i[1].wrapping_sub(i[10]); o[20] = i[2].wrapping_sub(i[11]); o[21] = i[3].wrapping_sub(i[12]); o[22] = i[4].wrapping_sub(i[13]); o[23] = i[5].wrapping_sub(i[14]); o[24] = i[6].wrapping_sub(i[15]); o[25] = i[7].wrapping_sub(i[16]); o[26] = i[8].wrapping_sub(i[17]);o[27] = i[0].wrapping_sub(i[9]); o[28] = i[1].wrapping_sub(i[10]); o[29] = i[2].wrapping_sub(i[11]); o[30] = i[3].wrapping_sub(i[12]); o[31] = i[4].wrapping_sub(i[13]); o[32] = i[5].wrapping_sub(i[14]); o[33] = i[6].wrapping_sub(i[15]); o[34] = i[7].wrapping_sub(i[16]); o[35] = i[8].wrapping_sub(i[17]);o[36] = i[0].wrapping_sub(i[9]); o[37] = i[1].wrapping_sub(i[10]); o[38] = i[2].wrapping_sub(i[11]); o[39] = i[3].wrapping_sub(i[12]); o[40] = i[4].wrapping_sub(i[13]); o[41] = i[5].wrapping_sub(i[14]); o[42] = i[6].wrapping_sub(i[15]); o[43] = i[7].wrapping_sub(i[16]); o[44] = i[8].wrapping_sub(i[17]);o[45] = i[0].wrapping_sub(i[9]); o[46] = i[1].wrapping_sub(i[10]); o[47] = i[2].wrapping_sub(i[11]); o[48] = i[3].wrapping_sub(i[12]); o[49] = i[4].wrapping_sub(i[13]); o[50] = i[5].wrapping_sub(i[14]); o[51] = i[6].wrapping_sub(i[15]); o[52] = i[7].wrapping_sub(i[16]); o[53] = i[8].wrapping_sub(i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 48]) -> bool {
    let s = i[16]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s); o[12] = i[12].wrapping_mul(s); o[13] = i[13].wrapping_mul(s); o[14] = i[14].wrapping_mul(s); o[15] = i[15].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); o[24] = i[8].wrapping_mul(s); o[25] = i[9].wrapping_mul(s); o[26] = i[10].wrapping_mul(s); o[27] = i[11].wrapping_mul(s); o[28] = i[12].wrapping_mul(s); o[29] = i[13].wrapping_mul(s); o[30] = i[14].wrapping_mul(s); o[31] = i[15].wrapping_mul(s);o[32] = i[0].wrapping_mul(s); o[33] = i[1].wrapping_mul(s); o[34] = i[2].wrapping_mul(s); o[35] = i[3].wrapping_mul(s); o[36] = i[4].wrapping_mul(s); o[37] = i[5].wrapping_mul(s); o[38] = i[6].wrapping_mul(s); o[39] = i[7].wrapping_mul(s); o[40] = i[8].wrapping_mul(s); o[41] = i[9].wrapping_mul(s); o[42] = i[10].wrapping_mul(s); o[43] = i[11].wrapping_mul(s); o[44] = i[12].wrapping_mul(s); o[45] = i[13].wrapping_mul(s); o[46] = i[14].wrapping_mul(s); o[47] = i[15].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 48]) -> bool {
    let s = i[16]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s; o[12] = i[12] / s; o[13] = i[13] / s; o[14] = i[14] / s; o[15] = i[15] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; o[24] = i[8] / s; o[25] = i[9] / s; o[26] = i[10] / s; o[27] = i[11] / s; o[28] = i[12] / s; o[29] = i[13] / s; o[30] = i[14] / s; o[31] = i[15] / s;o[32] = i[0] / s; o[33] = i[1] / s; o[34] = i[2] / s; o[35] = i[3] / s; o[36] = i[4] / s; o[37] = i[5] / s; o[38] = i[6] / s; o[39] = i[7] / s; o[40] = i[8] / s; o[41] = i[9] / s; o[42] = i[10] / s; o[43] = i[11] / s; o[44] = i[12] / s; o[45] = i[13] / s; o[46] = i[14] / s; o[47] = i[15] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 48]) -> bool {
    let s = i[16]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s; o[12] = i[12] % s; o[13] = i[13] % s; o[14] = i[14] % s; o[15] = i[15] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; o[24] = i[8] % s; o[25] = i[9] % s; o[26] = i[10] % s; o[27] = i[11] % s; o[28] = i[12] % s; o[29] = i[13] % s; o[30] = i[14] % s; o[31] = i[15] % s;o[32] = i[0] % s; o[33] = i[1] % s; o[34] = i[2] % s; o[35] = i[3] % s; o[36] = i[4] % s; o[37] = i[5] % s; o[38] = i[6] % s; o[39] = i[7] % s; o[40] = i[8] % s; o[41] = i[9] % s; o[42] = i[10] % s; o[43] = i[11] % s; o[44] = i[12] % s; o[45] = i[13] % s; o[46] = i[14] % s; o[47] = i[15] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x4_u64(i: &[u64; 32], o: &mut [u64; 96]) -> bool {
    o[0] = i[0].wrapping_add(i[16]); o[1] = i[1].wrapping_add(i[17]); o[2] = i[2].wrapping_add(i[18]); o[3] = i[3].wrapping_add(i[19]); o[4] = i[4].wrapping_add(i[20]); o[5] = i[5].wrapping_add(i[21]); o[6] = i[6].wrapping_add(i[22]); o[7] = i[7].wrapping_add(i[23]); o[8] = i[8].wrapping_add(i[24]); o[9] = i[9].wrapping_add(i[25]); o[10] = i[10].wrapping_add(i[26]); o[11] = i[11].wrapping_add(i[27]); o[12] = i[12].wrapping_add(i[28]); o[13] = i[13].wrapping_add(i[29]); o[14] = i[14].wrapping_add(i[30]); o[15] = i[15].wrapping_add(i[31]);o[16] = i[0].wrapping_add(i[16]); o[17] = i[1].wrapping_add(i[17]); o[18] = i[2].wrapping_add(i[18]); o[19] = i[3].wrapping_add(i[19]); o[20] = i[4].wrapping_add(i[20]); o[21] = i[5].wrapping_add(i[21]); o[22] = i[6].wrapping_add(i[22]); o[23] = i[7].wrapping_add(i[23]); o[24] = i[8].wrapping_add(i[24]); o[25] = i[9].wrapping_add(i[25]); o[26] = i[10].wrapping_add(i[26]); o[27] = i[11].wrapping_add(i[27]); o[28] = i[12].wrapping_add(i[28]); o[29] = i[13].wrapping_add(i[29]); o[30] = i[14].wrapping_add(i[30]); o[31] = i[15].wrapping_add(i[31]);o[32] = i[0].wrapping_add(i[16]); o[33] = i[1].wrapping_add(i[17]); o[34] = i[2].wrapping_add(i[18]); o[35] = i[3].wrapping_add(i[19]); o[36] = i[4].wrapping_add(i[20]); o[37] = i[5].wrapping_add(i[21]); o[38] = i[6].wrapping_add(i[22]); o[39] = i[7].wrapping_add(i[23]); o[40] = i[8].wrapping_add(i[24]); o[41] = i[9].wrapping_add(i[25]); o[42] = i[10].wrapping_add(i[26]); o[43] = i[11].wrapping_add(i[27]); o[44] = i[12].wrapping_add(i[28]); o[45] = i[13].wrapping_add(i[29]); o[46] = i[14].wrapping_add(i[30]); o[47] = i[15].wrapping_add(i[31]);o[48] = i[0].wrapping_add(i[16]); o[49] = i[1].wrapping_add(i[17]); o[50] = i[2].wrapping_add(i[18]); o[51] = i[3].wrapping_add(i[19]); o[52] = i[4].wrapping_add(i[20]); o[53] = i[5].wrapping_add(i[21]); o[54] = i[6].wrapping_add(i[22]); o[55] = i[7].wrapping_add(i[23]); o[56] = i[8].wrapping_add(i[24]); o[57] = i[9].wrapping_add(i[25]); o[58] = i[10].wrapping_add(i[26]); o[59] = i[11].wrapping_add(i[27]); o[60] = i[12].wrapping_add(i[28]); o[61] = i[13].wrapping_add(i[29]); o[62] = i[14].wrapping_add(i[30]); o[63] = i[15].wrapping_add(i[31]);o[64] = i[0].wrapping_add(i[16]); o[65] = i[1].wrapping_add(i[17]); o[66] = i[2].wrapping_add(i[18]); o[67] = i[3].wrapping_add(i[19]); o[68] = i[4].wrapping_add(i[20]); o[69] = i[5].wrapping_add(i[21]); o[70] = i[6].wrapping_add(i[22]); o[71] = i[7].wrapping_add(i[23]); o[72] = i[8].wrapping_add(i[24]); o[73] = i[9].wrapping_add(i[25]); o[74] = i[10].wrapping_add(i[26]); o[75] = i[11].wrapping_add(i[27]); o[76] = i[12].wrapping_add(i[28]); o[77] = i[13].wrapping_add(i[29]); o[78] = i[14].wrapping_add(i[30]); o[79] = i[15].wrapping_add(i[31]);o[80] = i[0].wrapping_add(i[16]); o[81] = i[1].wrapping_add(i[17]); o[82] = i[2].wrapping_add(i[18]); o[83] = i[3].wrapping_add(i[19]); o[84] = i[4].wrapping_add(i[20]); o[85] = i[5].wrapping_add(i[21]); o[86] = i[6].wrapping_add(i[22]); o[87] = i[7].wrapping_add(i[23]); o[88] = i[8].wrapping_add(i[24]); o[89] = i[9].wrapping_add(i[25]); o[90] = i[10].wrapping_add(i[26]); o[91] = i[11].wrapping_add(i[27]); o[92] = i[12].wrapping_add(i[28]); o[93] = i[13].wrapping_add(i[29]); o[94] = i[14].wrapping_add(i[30]); o[95] = i[15].wrapping_add(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x4_u64(i: &[u64; 32], o: &mut [u64; 96]) -> bool {
    o[0] = i[0].wrapping_sub(i[16]); o[1] = i[1].wrapping_sub(i[17]); o[2] = i[2].wrapping_sub(i[18]); o[3] = i[3].wrapping_sub(i[19]); o[4] = i[4].wrapping_sub(i[20]); o[5] = i[5].wrapping_sub(i[21]); o[6] = i[6].wrapping_sub(i[22]); o[7] = i[7].wrapping_sub(i[23]); o[8] = i[8].wrapping_sub(i[24]); o[9] = i[9].wrapping_sub(i[25]); o[10] = i[10].wrapping_sub(i[26]); o[11] = i[11].wrapping_sub(i[27]); o[12] = i[12].wrapping_sub(i[28]); o[13] = i[13].wrapping_sub(i[29]); o[14] = i[14].wrapping_sub(i[30]); o[15] = i[15].wrapping_sub(i[31]);o[16] = i[0].wrapping_sub(i[16]); o[17] = i[1].wrapping_sub(i[17]); o[18] = i[2].wrapping_sub(i[18]); o[19] = i[3].wrapping_sub(i[19]); o[20] = i[4].wrapping_sub(i[20]); o[21] = i[5].wrapping_sub(i[21]); o[22] = i[6].wrapping_sub(i[22]); o[23] = i[7].wrapping_sub(i[23]); o[24] = i[8].wrapping_sub(i[24]); o[25] = i[9].wrapping_sub(i[25]); o[26] = i[10].wrapping_sub(i[26]); o[27] = i[11].wrapping_sub(i[27]); o[28] = i[12].wrapping_sub(i[28]); o[29] = i[13].wrapping_sub(i[29]); o[30] = i[14].wrapping_sub(i[30]); o[31] = i[15].wrapping_sub(i[31]);o[32] = i[0].wrapping_sub(i[16]); o[33] = i[1].wrapping_sub(i[17]); o[34] = i[2].wrapping_sub(i[18]); o[35] = i[3].wrapping_sub(i[19]); o[36] = i[4].wrapping_sub(i[20]); o[37] = i[5].wrapping_sub(i[21]); o[38] = i[6].wrapping_sub(i[22]); o[39] = i[7].wrapping_sub(i[23]); o[40] = i[8].wrapping_sub(i[24]); o[41] = i[9].wrapping_sub(i[25]); o[42] = i[10].wrapping_sub(i[26]); o[43] = i[11].wrapping_sub(i[27]); o[44] = i[12].wrapping_sub(i[28]); o[45] = i[13].wrapping_sub(i[29]); o[46] = i[14].wrapping_sub(i[30]); o[47] = i[15].wrapping_sub(i[31]);o[48] = i[0].wrapping_sub(i[16]); o[49] = i[1].wrapping_sub(i[17]); o[50] = i[2].wrapping_sub(i[18]); o[51] = i[3].wrapping_sub(i[19]); o[52] = i[4].wrapping_sub(i[20]); o[53] = i[5].wrapping_sub(i[21]); o[54] = i[6].wrapping_sub(i[22]); o[55] = i[7].wrapping_sub(i[23]); o[56] = i[8].wrapping_sub(i[24]); o[57] = i[9].wrapping_sub(i[25]); o[58] = i[10].wrapping_sub(i[26]); o[59] = i[11].wrapping_sub(i[27]); o[60] = i[12].wrapping_sub(i[28]); o[61] = i[13].wrapping_sub(i[29]); o[62] = i[14].wrapping_sub(i[30]); o[63] = i[15].wrapping_sub(i[31]);o[64] = i[0].wrapping_sub(i[16]); o[65] = i[1].wrapping_sub(i[17]); o[66] = i[2].wrapping_sub(i[18]); o[67] = i[3].wrapping_sub(i[19]); o[68] = i[4].wrapping_sub(i[20]); o[69] = i[5].wrapping_sub(i[21]); o[70] = i[6].wrapping_sub(i[22]); o[71] = i[7].wrapping_sub(i[23]); o[72] = i[8].wrapping_sub(i[24]); o[73] = i[9].wrapping_sub(i[25]); o[74] = i[10].wrapping_sub(i[26]); o[75] = i[11].wrapping_sub(i[27]); o[76] = i[12].wrapping_sub(i[28]); o[77] = i[13].wrapping_sub(i[29]); o[78] = i[14].wrapping_sub(i[30]); o[79] = i[15].wrapping_sub(i[31]);o[80] = i[0].wrapping_sub(i[16]); o[81] = i[1].wrapping_sub(i[17]); o[82] = i[2].wrapping_sub(i[18]); o[83] = i[3].wrapping_sub(i[19]); o[84] = i[4].wrapping_sub(i[20]); o[85] = i[5].wrapping_sub(i[21]); o[86] = i[6].wrapping_sub(i[22]); o[87] = i[7].wrapping_sub(i[23]); o[88] = i[8].wrapping_sub(i[24]); o[89] = i[9].wrapping_sub(i[25]); o[90] = i[10].wrapping_sub(i[26]); o[91] = i[11].wrapping_sub(i[27]); o[92] = i[12].wrapping_sub(i[28]); o[93] = i[13].wrapping_sub(i[29]); o[94] = i[14].wrapping_sub(i[30]); o[95] = i[15].wrapping_sub(i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x3_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x3_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let s = i[6]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s); o[8] = i[2].wrapping_mul(s); o[9] = i[3].wrapping_mul(s); o[10] = i[4].wrapping_mul(s); o[11] = i[5].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let s = i[6]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x2_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    o[0] = i[0].wrapping_add(i[6]); o[1] = i[1].wrapping_add(i[7]); o[2] = i[2].wrapping_add(i[8]); o[3] = i[3].wrapping_add(i[9]); o[4] = i[4].wrapping_add(i[10]); o[5] = i[5].wrapping_add(i[11]);o[6] = i[0].wrapping_add(i[6]); o[7] = i[1].wrapping_add(i[7]); o[8] = i[2].wrapping_add(i[8]); o[9] = i[3].wrapping_add(i[9]); o[10] = i[4].wrapping_add(i[10]); o[11] = i[5].wrapping_add(i[11]);o[12] = i[0].wrapping_add(i[6]); o[13] = i[1].wrapping_add(i[7]); o[14] = i[2].wrapping_add(i[8]); o[15] = i[3].wrapping_add(i[9]); o[16] = i[4].wrapping_add(i[10]); o[17] = i[5].wrapping_add(i[11]);o[18] = i[0].wrapping_add(i[6]); o[19] = i[1].wrapping_add(i[7]); o[20] = i[2].wrapping_add(i[8]); o[21] = i[3].wrapping_add(i[9]); o[22] = i[4].wrapping_add(i[10]); o[23] = i[5].wrapping_add(i[11]);o[24] = i[0].wrapping_add(i[6]); o[25] = i[1].wrapping_add(i[7]); o[26] = i[2].wrapping_add(i[8]); o[27] = i[3].wrapping_add(i[9]); o[28] = i[4].wrapping_add(i[10]); o[29] = i[5].wrapping_add(i[11]);o[30] = i[0].wrapping_add(i[6]); o[31] = i[1].wrapping_add(i[7]); o[32] = i[2].wrapping_add(i[8]); o[33] = i[3].wrapping_add(i[9]); o[34] = i[4].wrapping_add(i[10]); o[35] = i[5].wrapping_add(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x2_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    o[0] = i[0].wrapping_sub(i[6]); o[1] = i[1].wrapping_sub(i[7]); o[2] = i[2].wrapping_sub(i[8]); o[3] = i[3].wrapping_sub(i[9]); o[4] = i[4].wrapping_sub(i[10]); o[5] = i[5].wrapping_sub(i[11]);o[6] = i[0].wrapping_sub(i[6]); o[7] = i[1].wrapping_sub(i[7]); o[8] = i[2].wrapping_sub(i[8]); o[9] = i[3].wrapping_sub(i[9]); o[10] = i[4].wrapping_sub(i[10]); o[11] = i[5].wrapping_sub(i[11]);o[12] = i[0].wrapping_sub(i[6]); o[13] = i[1].wrapping_sub(i[7]); o[14] = i[2].wrapping_sub(i[8]); o[15] = i[3].wrapping_sub(i[9]); o[16] = i[4].wrapping_sub(i[10]); o[17] = i[5].wrapping_sub(i[11]);o[18] = i[0].wrapping_sub(i[6]); o[19] = i[1].wrapping_sub(i[7]); o[20] = i[2].wrapping_sub(i[8]); o[21] = i[3].wrapping_sub(i[9]); o[22] = i[4].wrapping_sub(i[10]); o[23] = i[5].wrapping_sub(i[11]);o[24] = i[0].wrapping_sub(i[6]); o[25] = i[1].wrapping_sub(i[7]); o[26] = i[2].wrapping_sub(i[8]); o[27] = i[3].wrapping_sub(i[9]); o[28] = i[4].wrapping_sub(i[10]); o[29] = i[5].wrapping_sub(i[11]);o[30] = i[0].wrapping_sub(i[6]); o[31] = i[1].wrapping_sub(i[7]); o[32] = i[2].wrapping_sub(i[8]); o[33] = i[3].wrapping_sub(i[9]); o[34] = i[4].wrapping_sub(i[10]); o[35] = i[5].wrapping_sub(i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 36]) -> bool {
    let s = i[12]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s); o[8] = i[8].wrapping_mul(s); o[9] = i[9].wrapping_mul(s); o[10] = i[10].wrapping_mul(s); o[11] = i[11].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s); o[16] = i[4].wrapping_mul(s); o[17] = i[5].wrapping_mul(s); o[18] = i[6].wrapping_mul(s); o[19] = i[7].wrapping_mul(s); o[20] = i[8].wrapping_mul(s); o[21] = i[9].wrapping_mul(s); o[22] = i[10].wrapping_mul(s); o[23] = i[11].wrapping_mul(s);o[24] = i[0].wrapping_mul(s); o[25] = i[1].wrapping_mul(s); o[26] = i[2].wrapping_mul(s); o[27] = i[3].wrapping_mul(s); o[28] = i[4].wrapping_mul(s); o[29] = i[5].wrapping_mul(s); o[30] = i[6].wrapping_mul(s); o[31] = i[7].wrapping_mul(s); o[32] = i[8].wrapping_mul(s); o[33] = i[9].wrapping_mul(s); o[34] = i[10].wrapping_mul(s); o[35] = i[11].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 36]) -> bool {
    let s = i[12]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; o[18] = i[6] / s; o[19] = i[7] / s; o[20] = i[8] / s; o[21] = i[9] / s; o[22] = i[10] / s; o[23] = i[11] / s;o[24] = i[0] / s; o[25] = i[1] / s; o[26] = i[2] / s; o[27] = i[3] / s; o[28] = i[4] / s; o[29] = i[5] / s; o[30] = i[6] / s; o[31] = i[7] / s; o[32] = i[8] / s; o[33] = i[9] / s; o[34] = i[10] / s; o[35] = i[11] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 36]) -> bool {
    let s = i[12]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; o[18] = i[6] % s; o[19] = i[7] % s; o[20] = i[8] % s; o[21] = i[9] % s; o[22] = i[10] % s; o[23] = i[11] % s;o[24] = i[0] % s; o[25] = i[1] % s; o[26] = i[2] % s; o[27] = i[3] % s; o[28] = i[4] % s; o[29] = i[5] % s; o[30] = i[6] % s; o[31] = i[7] % s; o[32] = i[8] % s; o[33] = i[9] % s; o[34] = i[10] % s; o[35] = i[11] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x3_u64(i: &[u64; 24], o: &mut [u64; 72]) -> bool {
    o[0] = i[0].wrapping_add(i[12]); o[1] = i[1].wrapping_add(i[13]); o[2] = i[2].wrapping_add(i[14]); o[3] = i[3].wrapping_add(i[15]); o[4] = i[4].wrapping_add(i[16]); o[5] = i[5].wrapping_add(i[17]); o[6] = i[6].wrapping_add(i[18]); o[7] = i[7].wrapping_add(i[19]); o[8] = i[8].wrapping_add(i[20]); o[9] = i[9].wrapping_add(i[21]); o[10] = i[10].wrapping_add(i[22]); o[11] = i[11].wrapping_add(i[23]);o[12] = i[0].wrapping_add(i[12]); o[13] = i[1].wrapping_add(i[13]); o[14] = i[2].wrapping_add(i[14]); o[15] = i[3].wrapping_add(i[15]); o[16] = i[4].wrapping_add(i[16]); o[17] = i[5].wrapping_add(i[17]); o[18] = i[6].wrapping_add(i[18]); o[19] = i[7].wrapping_add(i[19]); o[20] = i[8].wrapping_add(i[20]); o[21] = i[9].wrapping_add(i[21]); o[22] = i[10].wrapping_add(i[22]); o[23] = i[11].wrapping_add(i[23]);o[24] = i[0].wrapping_add(i[12]); o[25] = i[1].wrapping_add(i[13]); o[26] = i[2].wrapping_add(i[14]); o[27] = i[3].wrapping_add(i[15]); o[28] = i[4].wrapping_add(i[16]); o[29] = i[5].wrapping_add(i[17]); o[30] = i[6].wrapping_add(i[18]); o[31] = i[7].wrapping_add(i[19]); o[32] = i[8].wrapping_add(i[20]); o[33] = i[9].wrapping_add(i[21]); o[34] = i[10].wrapping_add(i[22]); o[35] = i[11].wrapping_add(i[23]);o[36] = i[0].wrapping_add(i[12]); o[37] = i[1].wrapping_add(i[13]); o[38] = i[2].wrapping_add(i[14]); o[39] = i[3].wrapping_add(i[15]); o[40] = i[4].wrapping_add(i[16]); o[41] = i[5].wrapping_add(i[17]); o[42] = i[6].wrapping_add(i[18]); o[43] = i[7].wrapping_add(i[19]); o[44] = i[8].wrapping_add(i[20]); o[45] = i[9].wrapping_add(i[21]); o[46] = i[10].wrapping_add(i[22]); o[47] = i[11].wrapping_add(i[23]);o[48] = i[0].wrapping_add(i[12]); o[49] = i[1].wrapping_add(i[13]); o[50] = i[2].wrapping_add(i[14]); o[51] = i[3].wrapping_add(i[15]); o[52] = i[4].wrapping_add(i[16]); o[53] = i[5].wrapping_add(i[17]); o[54] = i[6].wrapping_add(i[18]); o[55] = i[7].wrapping_add(i[19]); o[56] = i[8].wrapping_add(i[20]); o[57] = i[9].wrapping_add(i[21]); o[58] = i[10].wrapping_add(i[22]); o[59] = i[11].wrapping_add(i[23]);o[60] = i[0].wrapping_add(i[12]); o[61] = i[1].wrapping_add(i[13]); o[62] = i[2].wrapping_add(i[14]); o[63] = i[3].wrapping_add(i[15]); o[64] = i[4].wrapping_add(i[16]); o[65] = i[5].wrapping_add(i[17]); o[66] = i[6].wrapping_add(i[18]); o[67] = i[7].wrapping_add(i[19]); o[68] = i[8].wrapping_add(i[20]); o[69] = i[9].wrapping_add(i[21]); o[70] = i[10].wrapping_add(i[22]); o[71] = i[11].wrapping_add(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x3_u64(i: &[u64; 24], o: &mut [u64; 72]) -> bool {
    o[0] = i[0].wrapping_sub(i[12]); o[1] = i[1].wrapping_sub(i[13]); o[2] = i[2].wrapping_sub(i[14]); o[3] = i[3].wrapping_sub(i[15]); o[4] = i[4].wrapping_sub(i[16]); o[5] = i[5].wrapping_sub(i[17]); o[6] = i[6].wrapping_sub(i[18]); o[7] = i[7].wrapping_sub(i[19]); o[8] = i[8].wrapping_sub(i[20]); o[9] = i[9].wrapping_sub(i[21]); o[10] = i[10].wrapping_sub(i[22]); o[11] = i[11].wrapping_sub(i[23]);o[12] = i[0].wrapping_sub(i[12]); o[13] = i[1].wrapping_sub(i[13]); o[14] = i[2].wrapping_sub(i[14]); o[15] = i[3].wrapping_sub(i[15]); o[16] = i[4].wrapping_sub(i[16]); o[17] = i[5].wrapping_sub(i[17]); o[18] = i[6].wrapping_sub(i[18]); o[19] = i[7].wrapping_sub(i[19]); o[20] = i[8].wrapping_sub(i[20]); o[21] = i[9].wrapping_sub(i[21]); o[22] = i[10].wrapping_sub(i[22]); o[23] = i[11].wrapping_sub(i[23]);o[24] = i[0].wrapping_sub(i[12]); o[25] = i[1].wrapping_sub(i[13]); o[26] = i[2].wrapping_sub(i[14]); o[27] = i[3].wrapping_sub(i[15]); o[28] = i[4].wrapping_sub(i[16]); o[29] = i[5].wrapping_sub(i[17]); o[30] = i[6].wrapping_sub(i[18]); o[31] = i[7].wrapping_sub(i[19]); o[32] = i[8].wrapping_sub(i[20]); o[33] = i[9].wrapping_sub(i[21]); o[34] = i[10].wrapping_sub(i[22]); o[35] = i[11].wrapping_sub(i[23]);o[36] = i[0].wrapping_sub(i[12]); o[37] = i[1].wrapping_sub(i[13]); o[38] = i[2].wrapping_sub(i[14]); o[39] = i[3].wrapping_sub(i[15]); o[40] = i[4].wrapping_sub(i[16]); o[41] = i[5].wrapping_sub(i[17]); o[42] = i[6].wrapping_sub(i[18]); o[43] = i[7].wrapping_sub(i[19]); o[44] = i[8].wrapping_sub(i[20]); o[45] = i[9].wrapping_sub(i[21]); o[46] = i[10].wrapping_sub(i[22]); o[47] = i[11].wrapping_sub(i[23]);o[48] = i[0].wrapping_sub(i[12]); o[49] = i[1].wrapping_sub(i[13]); o[50] = i[2].wrapping_sub(i[14]); o[51] = i[3].wrapping_sub(i[15]); o[52] = i[4].wrapping_sub(i[16]); o[53] = i[5].wrapping_sub(i[17]); o[54] = i[6].wrapping_sub(i[18]); o[55] = i[7].wrapping_sub(i[19]); o[56] = i[8].wrapping_sub(i[20]); o[57] = i[9].wrapping_sub(i[21]); o[58] = i[10].wrapping_sub(i[22]); o[59] = i[11].wrapping_sub(i[23]);o[60] = i[0].wrapping_sub(i[12]); o[61] = i[1].wrapping_sub(i[13]); o[62] = i[2].wrapping_sub(i[14]); o[63] = i[3].wrapping_sub(i[15]); o[64] = i[4].wrapping_sub(i[16]); o[65] = i[5].wrapping_sub(i[17]); o[66] = i[6].wrapping_sub(i[18]); o[67] = i[7].wrapping_sub(i[19]); o[68] = i[8].wrapping_sub(i[20]); o[69] = i[9].wrapping_sub(i[21]); o[70] = i[10].wrapping_sub(i[22]); o[71] = i[11].wrapping_sub(i[23]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 24]) -> bool {
    let s = i[8]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s); o[4] = i[4].wrapping_mul(s); o[5] = i[5].wrapping_mul(s); o[6] = i[6].wrapping_mul(s); o[7] = i[7].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s); o[12] = i[4].wrapping_mul(s); o[13] = i[5].wrapping_mul(s); o[14] = i[6].wrapping_mul(s); o[15] = i[7].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); o[20] = i[4].wrapping_mul(s); o[21] = i[5].wrapping_mul(s); o[22] = i[6].wrapping_mul(s); o[23] = i[7].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 24]) -> bool {
    let s = i[8]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; o[12] = i[4] / s; o[13] = i[5] / s; o[14] = i[6] / s; o[15] = i[7] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 24]) -> bool {
    let s = i[8]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; o[12] = i[4] % s; o[13] = i[5] % s; o[14] = i[6] % s; o[15] = i[7] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x2_u64(i: &[u64; 16], o: &mut [u64; 48]) -> bool {
    o[0] = i[0].wrapping_add(i[8]); o[1] = i[1].wrapping_add(i[9]); o[2] = i[2].wrapping_add(i[10]); o[3] = i[3].wrapping_add(i[11]); o[4] = i[4].wrapping_add(i[12]); o[5] = i[5].wrapping_add(i[13]); o[6] = i[6].wrapping_add(i[14]); o[7] = i[7].wrapping_add(i[15]);o[8] = i[0].wrapping_add(i[8]); o[9] = i[1].wrapping_add(i[9]); o[10] = i[2].wrapping_add(i[10]); o[11] = i[3].wrapping_add(i[11]); o[12] = i[4].wrapping_add(i[12]); o[13] = i[5].wrapping_add(i[13]); o[14] = i[6].wrapping_add(i[14]); o[15] = i[7].wrapping_add(i[15]);o[16] = i[0].wrapping_add(i[8]); o[17] = i[1].wrapping_add(i[9]); o[18] = i[2].wrapping_add(i[10]); o[19] = i[3].wrapping_add(i[11]); o[20] = i[4].wrapping_add(i[12]); o[21] = i[5].wrapping_add(i[13]); o[22] = i[6].wrapping_add(i[14]); o[23] = i[7].wrapping_add(i[15]);o[24] = i[0].wrapping_add(i[8]); o[25] = i[1].wrapping_add(i[9]); o[26] = i[2].wrapping_add(i[10]); o[27] = i[3].wrapping_add(i[11]); o[28] = i[4].wrapping_add(i[12]); o[29] = i[5].wrapping_add(i[13]); o[30] = i[6].wrapping_add(i[14]); o[31] = i[7].wrapping_add(i[15]);o[32] = i[0].wrapping_add(i[8]); o[33] = i[1].wrapping_add(i[9]); o[34] = i[2].wrapping_add(i[10]); o[35] = i[3].wrapping_add(i[11]); o[36] = i[4].wrapping_add(i[12]); o[37] = i[5].wrapping_add(i[13]); o[38] = i[6].wrapping_add(i[14]); o[39] = i[7].wrapping_add(i[15]);o[40] = i[0].wrapping_add(i[8]); o[41] = i[1].wrapping_add(i[9]); o[42] = i[2].wrapping_add(i[10]); o[43] = i[3].wrapping_add(i[11]); o[44] = i[4].wrapping_add(i[12]); o[45] = i[5].wrapping_add(i[13]); o[46] = i[6].wrapping_add(i[14]); o[47] = i[7].wrapping_add(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x2_u64(i: &[u64; 16], o: &mut [u64; 48]) -> bool {
    o[0] = i[0].wrapping_sub(i[8]); o[1] = i[1].wrapping_sub(i[9]); o[2] = i[2].wrapping_sub(i[10]); o[3] = i[3].wrapping_sub(i[11]); o[4] = i[4].wrapping_sub(i[12]); o[5] = i[5].wrapping_sub(i[13]); o[6] = i[6].wrapping_sub(i[14]); o[7] = i[7].wrapping_sub(i[15]);o[8] = i[0].wrapping_sub(i[8]); o[9] = i[1].wrapping_sub(i[9]); o[10] = i[2].wrapping_sub(i[10]); o[11] = i[3].wrapping_sub(i[11]); o[12] = i[4].wrapping_sub(i[12]); o[13] = i[5].wrapping_sub(i[13]); o[14] = i[6].wrapping_sub(i[14]); o[15] = i[7].wrapping_sub(i[15]);o[16] = i[0].wrapping_sub(i[8]); o[17] = i[1].wrapping_sub(i[9]); o[18] = i[2].wrapping_sub(i[10]); o[19] = i[3].wrapping_sub(i[11]); o[20] = i[4].wrapping_sub(i[12]); o[21] = i[5].wrapping_sub(i[13]); o[22] = i[6].wrapping_sub(i[14]); o[23] = i[7].wrapping_sub(i[15]);o[24] = i[0].wrapping_sub(i[8]); o[25] = i[1].wrapping_sub(i[9]); o[26] = i[2].wrapping_sub(i[10]); o[27] = i[3].wrapping_sub(i[11]); o[28] = i[4].wrapping_sub(i[12]); o[29] = i[5].wrapping_sub(i[13]); o[30] = i[6].wrapping_sub(i[14]); o[31] = i[7].wrapping_sub(i[15]);o[32] = i[0].wrapping_sub(i[8]); o[33] = i[1].wrapping_sub(i[9]); o[34] = i[2].wrapping_sub(i[10]); o[35] = i[3].wrapping_sub(i[11]); o[36] = i[4].wrapping_sub(i[12]); o[37] = i[5].wrapping_sub(i[13]); o[38] = i[6].wrapping_sub(i[14]); o[39] = i[7].wrapping_sub(i[15]);o[40] = i[0].wrapping_sub(i[8]); o[41] = i[1].wrapping_sub(i[9]); o[42] = i[2].wrapping_sub(i[10]); o[43] = i[3].wrapping_sub(i[11]); o[44] = i[4].wrapping_sub(i[12]); o[45] = i[5].wrapping_sub(i[13]); o[46] = i[6].wrapping_sub(i[14]); o[47] = i[7].wrapping_sub(i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_mul_scalar_quaternion_u64(i: &[u64; 5], o: &mut [u64; 20]) -> bool {
    let s = i[4]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s); o[2] = i[2].wrapping_mul(s); o[3] = i[3].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s); o[6] = i[2].wrapping_mul(s); o[7] = i[3].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); o[10] = i[2].wrapping_mul(s); o[11] = i[3].wrapping_mul(s);o[12] = i[0].wrapping_mul(s); o[13] = i[1].wrapping_mul(s); o[14] = i[2].wrapping_mul(s); o[15] = i[3].wrapping_mul(s);o[16] = i[0].wrapping_mul(s); o[17] = i[1].wrapping_mul(s); o[18] = i[2].wrapping_mul(s); o[19] = i[3].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_div_scalar_quaternion_u64(i: &[u64; 5], o: &mut [u64; 20]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_rem_scalar_quaternion_u64(i: &[u64; 5], o: &mut [u64; 20]) -> bool {
    let s = i[4]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_add_quaternion_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_add(i[4]); o[1] = i[1].wrapping_add(i[5]); o[2] = i[2].wrapping_add(i[6]); o[3] = i[3].wrapping_add(i[7]);o[4] = i[0].wrapping_add(i[4]); o[5] = i[1].wrapping_add(i[5]); o[6] = i[2].wrapping_add(i[6]); o[7] = i[3].wrapping_add(i[7]);o[8] = i[0].wrapping_add(i[4]); o[9] = i[1].wrapping_add(i[5]); o[10] = i[2].wrapping_add(i[6]); o[11] = i[3].wrapping_add(i[7]);o[12] = i[0].wrapping_add(i[4]); o[13] = i[1].wrapping_add(i[5]); o[14] = i[2].wrapping_add(i[6]); o[15] = i[3].wrapping_add(i[7]);o[16] = i[0].wrapping_add(i[4]); o[17] = i[1].wrapping_add(i[5]); o[18] = i[2].wrapping_add(i[6]); o[19] = i[3].wrapping_add(i[7]);o[20] = i[0].wrapping_add(i[4]); o[21] = i[1].wrapping_add(i[5]); o[22] = i[2].wrapping_add(i[6]); o[23] = i[3].wrapping_add(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_sub_quaternion_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    o[0] = i[0].wrapping_sub(i[4]); o[1] = i[1].wrapping_sub(i[5]); o[2] = i[2].wrapping_sub(i[6]); o[3] = i[3].wrapping_sub(i[7]);o[4] = i[0].wrapping_sub(i[4]); o[5] = i[1].wrapping_sub(i[5]); o[6] = i[2].wrapping_sub(i[6]); o[7] = i[3].wrapping_sub(i[7]);o[8] = i[0].wrapping_sub(i[4]); o[9] = i[1].wrapping_sub(i[5]); o[10] = i[2].wrapping_sub(i[6]); o[11] = i[3].wrapping_sub(i[7]);o[12] = i[0].wrapping_sub(i[4]); o[13] = i[1].wrapping_sub(i[5]); o[14] = i[2].wrapping_sub(i[6]); o[15] = i[3].wrapping_sub(i[7]);o[16] = i[0].wrapping_sub(i[4]); o[17] = i[1].wrapping_sub(i[5]); o[18] = i[2].wrapping_sub(i[6]); o[19] = i[3].wrapping_sub(i[7]);o[20] = i[0].wrapping_sub(i[4]); o[21] = i[1].wrapping_sub(i[5]); o[22] = i[2].wrapping_sub(i[6]); o[23] = i[3].wrapping_sub(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_mul_scalar_complex_u64(i: &[u64; 3], o: &mut [u64; 10]) -> bool {
    let s = i[2]; o[0] = i[0].wrapping_mul(s); o[1] = i[1].wrapping_mul(s);o[2] = i[0].wrapping_mul(s); o[3] = i[1].wrapping_mul(s);o[4] = i[0].wrapping_mul(s); o[5] = i[1].wrapping_mul(s);o[6] = i[0].wrapping_mul(s); o[7] = i[1].wrapping_mul(s);o[8] = i[0].wrapping_mul(s); o[9] = i[1].wrapping_mul(s); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_scalar_complex_u64(i: &[u64; 3], o: &mut [u64; 10]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s;o[6] = i[0] / s; o[7] = i[1] / s;o[8] = i[0] / s; o[9] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_rem_scalar_complex_u64(i: &[u64; 3], o: &mut [u64; 10]) -> bool {
    let s = i[2]; if s == 0 { return false; }o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s;o[6] = i[0] % s; o[7] = i[1] % s;o[8] = i[0] % s; o[9] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_add_complex_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_add(i[2]); o[1] = i[1].wrapping_add(i[3]);o[2] = i[0].wrapping_add(i[2]); o[3] = i[1].wrapping_add(i[3]);o[4] = i[0].wrapping_add(i[2]); o[5] = i[1].wrapping_add(i[3]);o[6] = i[0].wrapping_add(i[2]); o[7] = i[1].wrapping_add(i[3]);o[8] = i[0].wrapping_add(i[2]); o[9] = i[1].wrapping_add(i[3]);o[10] = i[0].wrapping_add(i[2]); o[11] = i[1].wrapping_add(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_sub_complex_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    o[0] = i[0].wrapping_sub(i[2]); o[1] = i[1].wrapping_sub(i[3]);o[2] = i[0].wrapping_sub(i[2]); o[3] = i[1].wrapping_sub(i[3]);o[4] = i[0].wrapping_sub(i[2]); o[5] = i[1].wrapping_sub(i[3]);o[6] = i[0].wrapping_sub(i[2]); o[7] = i[1].wrapping_sub(i[3]);o[8] = i[0].wrapping_sub(i[2]); o[9] = i[1].wrapping_sub(i[3]);o[10] = i[0].wrapping_sub(i[2]); o[11] = i[1].wrapping_sub(i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] * s;o[1] = i[0] * s;o[2] = i[0] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] + i[1];o[1] = i[0] + i[1];o[2] = i[0] + i[1];o[3] = i[0] + i[1];o[4] = i[0] + i[1];o[5] = i[0] + i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1];o[4] = i[0] - i[1];o[5] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let s = i[2]; o[0] = i[0] * s; o[1] = i[1] * s;o[2] = i[0] * s; o[3] = i[1] * s;o[4] = i[0] * s; o[5] = i[1] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let s = i[2]; o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let s = i[2]; o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] + i[2]; o[1] = i[1] + i[3];o[2] = i[0] + i[2]; o[3] = i[1] + i[3];o[4] = i[0] + i[2]; o[5] = i[1] + i[3];o[6] = i[0] + i[2]; o[7] = i[1] + i[3];o[8] = i[0] + i[2]; o[9] = i[1] + i[3];o[10] = i[0] + i[2]; o[11] = i[1] + i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] - i[2]; o[1] = i[1] - i[3];o[2] = i[0] - i[2]; o[3] = i[1] - i[3];o[4] = i[0] - i[2]; o[5] = i[1] - i[3];o[6] = i[0] - i[2]; o[7] = i[1] - i[3];o[8] = i[0] - i[2]; o[9] = i[1] - i[3];o[10] = i[0] - i[2]; o[11] = i[1] - i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let s = i[3]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s;o[3] = i[0] * s; o[4] = i[1] * s; o[5] = i[2] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let s = i[3]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let s = i[3]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    o[0] = i[0] + i[3]; o[1] = i[1] + i[4]; o[2] = i[2] + i[5];o[3] = i[0] + i[3]; o[4] = i[1] + i[4]; o[5] = i[2] + i[5];o[6] = i[0] + i[3]; o[7] = i[1] + i[4]; o[8] = i[2] + i[5];o[9] = i[0] + i[3]; o[10] = i[1] + i[4]; o[11] = i[2] + i[5];o[12] = i[0] + i[3]; o[13] = i[1] + i[4]; o[14] = i[2] + i[5];o[15] = i[0] + i[3]; o[16] = i[1] + i[4]; o[17] = i[2] + i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    o[0] = i[0] - i[3]; o[1] = i[1] - i[4]; o[2] = i[2] - i[5];o[3] = i[0] - i[3]; o[4] = i[1] - i[4]; o[5] = i[2] - i[5];o[6] = i[0] - i[3]; o[7] = i[1] - i[4]; o[8] = i[2] - i[5];o[9] = i[0] - i[3]; o[10] = i[1] - i[4]; o[11] = i[2] - i[5];o[12] = i[0] - i[3]; o[13] = i[1] - i[4]; o[14] = i[2] - i[5];o[15] = i[0] - i[3]; o[16] = i[1] - i[4]; o[17] = i[2] - i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] * s;o[1] = i[0] * s;o[2] = i[0] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] + i[1];o[1] = i[0] + i[1];o[2] = i[0] + i[1];o[3] = i[0] + i[1];o[4] = i[0] + i[1];o[5] = i[0] + i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1];o[4] = i[0] - i[1];o[5] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let s = i[2]; o[0] = i[0] * s; o[1] = i[1] * s;o[2] = i[0] * s; o[3] = i[1] * s;o[4] = i[0] * s; o[5] = i[1] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let s = i[2]; o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let s = i[2]; o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] + i[2]; o[1] = i[1] + i[3];o[2] = i[0] + i[2]; o[3] = i[1] + i[3];o[4] = i[0] + i[2]; o[5] = i[1] + i[3];o[6] = i[0] + i[2]; o[7] = i[1] + i[3];o[8] = i[0] + i[2]; o[9] = i[1] + i[3];o[10] = i[0] + i[2]; o[11] = i[1] + i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] - i[2]; o[1] = i[1] - i[3];o[2] = i[0] - i[2]; o[3] = i[1] - i[3];o[4] = i[0] - i[2]; o[5] = i[1] - i[3];o[6] = i[0] - i[2]; o[7] = i[1] - i[3];o[8] = i[0] - i[2]; o[9] = i[1] - i[3];o[10] = i[0] - i[2]; o[11] = i[1] - i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let s = i[3]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s;o[3] = i[0] * s; o[4] = i[1] * s; o[5] = i[2] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let s = i[3]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let s = i[3]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    o[0] = i[0] + i[3]; o[1] = i[1] + i[4]; o[2] = i[2] + i[5];o[3] = i[0] + i[3]; o[4] = i[1] + i[4]; o[5] = i[2] + i[5];o[6] = i[0] + i[3]; o[7] = i[1] + i[4]; o[8] = i[2] + i[5];o[9] = i[0] + i[3]; o[10] = i[1] + i[4]; o[11] = i[2] + i[5];o[12] = i[0] + i[3]; o[13] = i[1] + i[4]; o[14] = i[2] + i[5];o[15] = i[0] + i[3]; o[16] = i[1] + i[4]; o[17] = i[2] + i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    o[0] = i[0] - i[3]; o[1] = i[1] - i[4]; o[2] = i[2] - i[5];o[3] = i[0] - i[3]; o[4] = i[1] - i[4]; o[5] = i[2] - i[5];o[6] = i[0] - i[3]; o[7] = i[1] - i[4]; o[8] = i[2] - i[5];o[9] = i[0] - i[3]; o[10] = i[1] - i[4]; o[11] = i[2] - i[5];o[12] = i[0] - i[3]; o[13] = i[1] - i[4]; o[14] = i[2] - i[5];o[15] = i[0] - i[3]; o[16] = i[1] - i[4]; o[17] = i[2] - i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] * s;o[1] = i[0] * s;o[2] = i[0] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let s = i[1]; o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] + i[1];o[1] = i[0] + i[1];o[2] = i[0] + i[1];o[3] = i[0] + i[1];o[4] = i[0] + i[1];o[5] = i[0] + i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1];o[4] = i[0] - i[1];o[5] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x2_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x2_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 27]) -> bool {
    let s = i[9]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s; o[8] = i[8] * s;o[9] = i[0] * s; o[10] = i[1] * s; o[11] = i[2] * s; o[12] = i[3] * s; o[13] = i[4] * s; o[14] = i[5] * s; o[15] = i[6] * s; o[16] = i[7] * s; o[17] = i[8] * s;o[18] = i[0] * s; o[19] = i[1] * s; o[20] = i[2] * s; o[21] = i[3] * s; o[22] = i[4] * s; o[23] = i[5] * s; o[24] = i[6] * s; o[25] = i[7] * s; o[26] = i[8] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 27]) -> bool {
    let s = i[9]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s;o[9] = i[0] / s; o[10] = i[1] / s; o[11] = i[2] / s; o[12] = i[3] / s; o[13] = i[4] / s; o[14] = i[5] / s; o[15] = i[6] / s; o[16] = i[7] / s; o[17] = i[8] / s;o[18] = i[0] / s; o[19] = i[1] / s; o[20] = i[2] / s; o[21] = i[3] / s; o[22] = i[4] / s; o[23] = i[5] / s; o[24] = i[6] / s; o[25] = i[7] / s; o[26] = i[8] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 27]) -> bool {
    let s = i[9]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s;o[9] = i[0] % s; o[10] = i[1] % s; o[11] = i[2] % s; o[12] = i[3] % s; o[13] = i[4] % s; o[14] = i[5] % s; o[15] = i[6] % s; o[16] = i[7] % s; o[17] = i[8] % s;o[18] = i[0] % s; o[19] = i[1] % s; o[20] = i[2] % s; o[21] = i[3] % s; o[22] = i[4] % s; o[23] = i[5] % s; o[24] = i[6] % s; o[25] = i[7] % s; o[26] = i[8] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x3_f32(i: &[f32; 18], o: &mut [f32; 54]) -> bool {
    o[0] = i[0] + i[9]; o[1] = i[1] + i[10]; o[2] = i[2] + i[11]; o[3] = i[3] + i[12]; o[4] = i[4] + i[13]; o[5] = i[5] + i[14]; o[6] = i[6] + i[15]; o[7] = i[7] + i[16]; o[8] = i[8] + i[17];o[9] = i[0] + i[9]; o[10] = i[1] + i[10]; o[11] = i[2] + i[11]; o[12] = i[3] + i[12]; o[13] = i[4] + i[13]; o[14] = i[5] + i[14]; o[15] = i[6] + i[15]; o[16] = i[7] + i[16]; o[17] = i[8] + i[17];o[18] = i[0] + i[9]; o[19] = i[1] + i[10]; o[20] = i[2] + i[11]; o[21] = i[3] + i[12]; o[22] = i[4] + i[13]; o[23] = i[5] + i[14]; o[24] = i[6] + i[15]; o[25] = i[7] + i[16]; o[26] = i[8] + i[17];o[27] = i[0] + i[9]; o[28] = i[1] + i[10]; o[29] = i[2] + i[11]; o[30] = i[3] + i[12]; o[31] = i[4] + i[13]; o[32] = i[5] + i[14]; o[33] = i[6] + i[15]; o[34] = i[7] + i[16]; o[35] = i[8] + i[17];o[36] = i[0] + i[9]; o[37] = i[1] + i[10]; o[38] = i[2] + i[11]; o[39] = i[3] + i[12]; o[40] = i[4] + i[13]; o[41] = i[5] + i[14]; o[42] = i[6] + i[15]; o[43] = i[7] + i[16]; o[44] = i[8] + i[17];o[45] = i[0] + i[9]; o[46] = i[1] + i[10]; o[47] = i[2] + i[11]; o[48] = i[3] + i[12]; o[49] = i[4] + i[13]; o[50] = i[5] + i[14]; o[51] = i[6] + i[15]; o[52] = i[7] + i[16]; o[53] = i[8] + i[17]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x3_f32(i: &[f32; 18], o: &mut [f32; 54]) -> bool {
    o[0] = i[0] - i[9]; o[1] = i[1] - i[10]; o[2] = i[2] - i[11]; o[3] = i[3] - i[12]; o[4] = i[4] - i[13]; o[5] = i[5] - i[14]; o[6] = i[6] - i[15]; o[7] = i[7] - i[16]; o[8] = i[8] - i[17];o[9] = i[0] - i[9]; o[10] = i[1] - i[10]; o[11] = i[2] - i[11]; o[12] = i[3] - i[12]; o[13] = i[4] - i[13]; o[14] = i[5] - i[14]; o[15] = i[6] - i[15]; o[16] = i[7] - i[16]; o[17] = i[8] - i[17];o[18] = i[0] - i[9]; o[19] = i[1] - i[10]; o[20] = i[2] - i[11]; o[21] = i[3] - i[12]; o[22] = i[4] - i[13]; o[23] = i[5] - i[14]; o[24] = i[6] - i[15]; o[25] = i[7] - i[16]; o[26] = i[8] - i[17];o[27] = i[0] - i[9]; o[28] = i[1] - i[10]; o[29] = i[2] - i[11]; o[30] = i[3] - i[12]; o[31] = i[4] - i[13]; o[32] = i[5] - i[14]; o[33] = i[6] - i[15]; o[34] = i[7] - i[16]; o[35] = i[8] - i[17];o[36] = i[0] - i[9]; o[37] = i[1] - i[10]; o[38] = i[2] - i[11]; o[39] = i[3] - i[12]; o[40] = i[4] - i[13]; o[41] = i[5] - i[14]; o[42] = i[6] - i[15]; o[43] = i[7] - i[16]; o[44] = i[8] - i[17];o[45] = i[0] - i[9]; o[46] = i[1] - i[10]; o[47] = i[2] - i[11]; o[48] = i[3] - i[12]; o[49] = i[4] - i[13]; o[50] = i[5] - i[14]; o[51] = i[6] - i[15]; o[52] = i[7] - i[16]; o[53] = i[8] - i[17]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 48]) -> bool {
    let s = i[16]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s; o[8] = i[8] * s; o[9] = i[9] * s; o[10] = i[10] * s; o[11] = i[11] * s; o[12] = i[12] * s; o[13] = i[13] * s; o[14] = i[14] * s; o[15] = i[15] * s;o[16] = i[0] * s; o[17] = i[1] * s; o[18] = i[2] * s; o[19] = i[3] * s; o[20] = i[4] * s; o[21] = i[5] * s; o[22] = i[6] * s; o[23] = i[7] * s; o[24] = i[8] * s; o[25] = i[9] * s; o[26] = i[10] * s; o[27] = i[11] * s; o[28] = i[12] * s; o[29] = i[13] * s; o[30] = i[14] * s; o[31] = i[15] * s;o[32] = i[0] * s; o[33] = i[1] * s; o[34] = i[2] * s; o[35] = i[3] * s; o[36] = i[4] * s; o[37] = i[5] * s; o[38] = i[6] * s; o[39] = i[7] * s; o[40] = i[8] * s; o[41] = i[9] * s; o[42] = i[10] * s; o[43] = i[11] * s; o[44] = i[12] * s; o[45] = i[13] * s; o[46] = i[14] * s; o[47] = i[15] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 48]) -> bool {
    let s = i[16]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s; o[12] = i[12] / s; o[13] = i[13] / s; o[14] = i[14] / s; o[15] = i[15] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; o[24] = i[8] / s; o[25] = i[9] / s; o[26] = i[10] / s; o[27] = i[11] / s; o[28] = i[12] / s; o[29] = i[13] / s; o[30] = i[14] / s; o[31] = i[15] / s;o[32] = i[0] / s; o[33] = i[1] / s; o[34] = i[2] / s; o[35] = i[3] / s; o[36] = i[4] / s; o[37] = i[5] / s; o[38] = i[6] / s; o[39] = i[7] / s; o[40] = i[8] / s; o[41] = i[9] / s; o[42] = i[10] / s; o[43] = i[11] / s; o[44] = i[12] / s; o[45] = i[13] / s; o[46] = i[14] / s; o[47] = i[15] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 48]) -> bool {
    let s = i[16]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s; o[12] = i[12] % s; o[13] = i[13] % s; o[14] = i[14] % s; o[15] = i[15] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; o[24] = i[8] % s; o[25] = i[9] % s; o[26] = i[10] % s; o[27] = i[11] % s; o[28] = i[12] % s; o[29] = i[13] % s; o[30] = i[14] % s; o[31] = i[15] % s;o[32] = i[0] % s; o[33] = i[1] % s; o[34] = i[2] % s; o[35] = i[3] % s; o[36] = i[4] % s; o[37] = i[5] % s; o[38] = i[6] % s; o[39] = i[7] % s; o[40] = i[8] % s; o[41] = i[9] % s; o[42] = i[10] % s; o[43] = i[11] % s; o[44] = i[12] % s; o[45] = i[13] % s; o[46] = i[14] % s; o[47] = i[15] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x4_f32(i: &[f32; 32], o: &mut [f32; 96]) -> bool {
    o[0] = i[0] + i[16]; o[1] = i[1] + i[17]; o[2] = i[2] + i[18]; o[3] = i[3] + i[19]; o[4] = i[4] + i[20]; o[5] = i[5] + i[21]; o[6] = i[6] + i[22]; o[7] = i[7] + i[23]; o[8] = i[8] + i[24]; o[9] = i[9] + i[25]; o[10] = i[10] + i[26]; o[11] = i[11] + i[27]; o[12] = i[12] + i[28]; o[13] = i[13] + i[29]; o[14] = i[14] + i[30]; o[15] = i[15] + i[31];o[16] = i[0] + i[16]; o[17] = i[1] + i[17]; o[18] = i[2] + i[18]; o[19] = i[3] + i[19]; o[20] = i[4] + i[20]; o[21] = i[5] + i[21]; o[22] = i[6] + i[22]; o[23] = i[7] + i[23]; o[24] = i[8] + i[24]; o[25] = i[9] + i[25]; o[26] = i[10] + i[26]; o[27] = i[11] + i[27]; o[28] = i[12] + i[28]; o[29] = i[13] + i[29]; o[30] = i[14] + i[30]; o[31] = i[15] + i[31];o[32] = i[0] + i[16]; o[33] = i[1] + i[17]; o[34] = i[2] + i[18]; o[35] = i[3] + i[19]; o[36] = i[4] + i[20]; o[37] = i[5] + i[21]; o[38] = i[6] + i[22]; o[39] = i[7] + i[23]; o[40] = i[8] + i[24]; o[41] = i[9] + i[25]; o[42] = i[10] + i[26]; o[43] = i[11] + i[27]; o[44] = i[12] + i[28]; o[45] = i[13] + i[29]; o[46] = i[14] + i[30]; o[47] = i[15] + i[31];o[48] = i[0] + i[16]; o[49] = i[1] + i[17]; o[50] = i[2] + i[18]; o[51] = i[3] + i[19]; o[52] = i[4] + i[20]; o[53] = i[5] + i[21]; o[54] = i[6] + i[22]; o[55] = i[7] + i[23]; o[56] = i[8] + i[24]; o[57] = i[9] + i[25]; o[58] = i[10] + i[26]; o[59] = i[11] + i[27]; o[60] = i[12] + i[28]; o[61] = i[13] + i[29]; o[62] = i[14] + i[30]; o[63] = i[15] + i[31];o[64] = i[0] + i[16]; o[65] = i[1] + i[17]; o[66] = i[2] + i[18]; o[67] = i[3] + i[19]; o[68] = i[4] + i[20]; o[69] = i[5] + i[21]; o[70] = i[6] + i[22]; o[71] = i[7] + i[23]; o[72] = i[8] + i[24]; o[73] = i[9] + i[25]; o[74] = i[10] + i[26]; o[75] = i[11] + i[27]; o[76] = i[12] + i[28]; o[77] = i[13] + i[29]; o[78] = i[14] + i[30]; o[79] = i[15] + i[31];o[80] = i[0] + i[16]; o[81] = i[1] + i[17]; o[82] = i[2] + i[18]; o[83] = i[3] + i[19]; o[84] = i[4] + i[20]; o[85] = i[5] + i[21]; o[86] = i[6] + i[22]; o[87] = i[7] + i[23]; o[88] = i[8] + i[24]; o[89] = i[9] + i[25]; o[90] = i[10] + i[26]; o[91] = i[11] + i[27]; o[92] = i[12] + i[28]; o[93] = i[13] + i[29]; o[94] = i[14] + i[30]; o[95] = i[15] + i[31]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x4_f32(i: &[f32; 32], o: &mut [f32; 96]) -> bool {
    o[0] = i[0] - i[16]; o[1] = i[1] - i[17]; o[2] = i[2] - i[18]; o[3] = i[3] - i[19]; o[4] = i[4] - i[20]; o[5] = i[5] - i[21]; o[6] = i[6] - i[22]; o[7] = i[7] - i[23]; o[8] = i[8] - i[24]; o[9] = i[9] - i[25]; o[10] = i[10] - i[26]; o[11] = i[11] - i[27]; o[12] = i[12] - i[28]; o[13] = i[13] - i[29]; o[14] = i[14] - i[30]; o[15] = i[15] - i[31];o[16] = i[0] - i[16]; o[17] = i[1] - i[17]; o[18] = i[2] - i[18]; o[19] = i[3] - i[19]; o[20] = i[4] - i[20]; o[21] = i[5] - i[21]; o[22] = i[6] - i[22]; o[23] = i[7] - i[23]; o[24] = i[8] - i[24]; o[25] = i[9] - i[25]; o[26] = i[10] - i[26]; o[27] = i[11] - i[27]; o[28] = i[12] - i[28]; o[29] = i[13] - i[29]; o[30] = i[14] - i[30]; o[31] = i[15] - i[31];o[32] = i[0] - i[16]; o[33] = i[1] - i[17]; o[34] = i[2] - i[18]; o[35] = i[3] - i[19]; o[36] = i[4] - i[20]; o[37] = i[5] - i[21]; o[38] = i[6] - i[22]; o[39] = i[7] - i[23]; o[40] = i[8] - i[24]; o[41] = i[9] - i[25]; o[42] = i[10] - i[26]; o[43] = i[11] - i[27]; o[44] = i[12] - i[28]; o[45] = i[13] - i[29]; o[46] = i[14] - i[30]; o[47] = i[15] - i[31];o[48] = i[0] - i[16]; o[49] = i[1] - i[17]; o[50] = i[2] - i[18]; o[51] = i[3] - i[19]; o[52] = i[4] - i[20]; o[53] = i[5] - i[21]; o[54] = i[6] - i[22]; o[55] = i[7] - i[23]; o[56] = i[8] - i[24]; o[57] = i[9] - i[25]; o[58] = i[10] - i[26]; o[59] = i[11] - i[27]; o[60] = i[12] - i[28]; o[61] = i[13] - i[29]; o[62] = i[14] - i[30]; o[63] = i[15] - i[31];o[64] = i[0] - i[16]; o[65] = i[1] - i[17]; o[66] = i[2] - i[18]; o[67] = i[3] - i[19]; o[68] = i[4] - i[20]; o[69] = i[5] - i[21]; o[70] = i[6] - i[22]; o[71] = i[7] - i[23]; o[72] = i[8] - i[24]; o[73] = i[9] - i[25]; o[74] = i[10] - i[26]; o[75] = i[11] - i[27]; o[76] = i[12] - i[28]; o[77] = i[13] - i[29]; o[78] = i[14] - i[30]; o[79] = i[15] - i[31];o[80] = i[0] - i[16]; o[81] = i[1] - i[17]; o[82] = i[2] - i[18]; o[83] = i[3] - i[19]; o[84] = i[4] - i[20]; o[85] = i[5] - i[21]; o[86] = i[6] - i[22]; o[87] = i[7] - i[23]; o[88] = i[8] - i[24]; o[89] = i[9] - i[25]; o[90] = i[10] - i[26]; o[91] = i[11] - i[27]; o[92] = i[12] - i[28]; o[93] = i[13] - i[29]; o[94] = i[14] - i[30]; o[95] = i[15] - i[31]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let s = i[6]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; o[9] = i[3] * s; o[10] = i[4] * s; o[11] = i[5] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s; o[16] = i[4] * s; o[17] = i[5] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let s = i[6]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let s = i[6]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x3_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    o[0] = i[0] + i[6]; o[1] = i[1] + i[7]; o[2] = i[2] + i[8]; o[3] = i[3] + i[9]; o[4] = i[4] + i[10]; o[5] = i[5] + i[11];o[6] = i[0] + i[6]; o[7] = i[1] + i[7]; o[8] = i[2] + i[8]; o[9] = i[3] + i[9]; o[10] = i[4] + i[10]; o[11] = i[5] + i[11];o[12] = i[0] + i[6]; o[13] = i[1] + i[7]; o[14] = i[2] + i[8]; o[15] = i[3] + i[9]; o[16] = i[4] + i[10]; o[17] = i[5] + i[11];o[18] = i[0] + i[6]; o[19] = i[1] + i[7]; o[20] = i[2] + i[8]; o[21] = i[3] + i[9]; o[22] = i[4] + i[10]; o[23] = i[5] + i[11];o[24] = i[0] + i[6]; o[25] = i[1] + i[7]; o[26] = i[2] + i[8]; o[27] = i[3] + i[9]; o[28] = i[4] + i[10]; o[29] = i[5] + i[11];o[30] = i[0] + i[6]; o[31] = i[1] + i[7]; o[32] = i[2] + i[8]; o[33] = i[3] + i[9]; o[34] = i[4] + i[10]; o[35] = i[5] + i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x3_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    o[0] = i[0] - i[6]; o[1] = i[1] - i[7]; o[2] = i[2] - i[8]; o[3] = i[3] - i[9]; o[4] = i[4] - i[10]; o[5] = i[5] - i[11];o[6] = i[0] - i[6]; o[7] = i[1] - i[7]; o[8] = i[2] - i[8]; o[9] = i[3] - i[9]; o[10] = i[4] - i[10]; o[11] = i[5] - i[11];o[12] = i[0] - i[6]; o[13] = i[1] - i[7]; o[14] = i[2] - i[8]; o[15] = i[3] - i[9]; o[16] = i[4] - i[10]; o[17] = i[5] - i[11];o[18] = i[0] - i[6]; o[19] = i[1] - i[7]; o[20] = i[2] - i[8]; o[21] = i[3] - i[9]; o[22] = i[4] - i[10]; o[23] = i[5] - i[11];o[24] = i[0] - i[6]; o[25] = i[1] - i[7]; o[26] = i[2] - i[8]; o[27] = i[3] - i[9]; o[28] = i[4] - i[10]; o[29] = i[5] - i[11];o[30] = i[0] - i[6]; o[31] = i[1] - i[7]; o[32] = i[2] - i[8]; o[33] = i[3] - i[9]; o[34] = i[4] - i[10]; o[35] = i[5] - i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let s = i[6]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; o[9] = i[3] * s; o[10] = i[4] * s; o[11] = i[5] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s; o[16] = i[4] * s; o[17] = i[5] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let s = i[6]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let s = i[6]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x2_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    o[0] = i[0] + i[6]; o[1] = i[1] + i[7]; o[2] = i[2] + i[8]; o[3] = i[3] + i[9]; o[4] = i[4] + i[10]; o[5] = i[5] + i[11];o[6] = i[0] + i[6]; o[7] = i[1] + i[7]; o[8] = i[2] + i[8]; o[9] = i[3] + i[9]; o[10] = i[4] + i[10]; o[11] = i[5] + i[11];o[12] = i[0] + i[6]; o[13] = i[1] + i[7]; o[14] = i[2] + i[8]; o[15] = i[3] + i[9]; o[16] = i[4] + i[10]; o[17] = i[5] + i[11];o[18] = i[0] + i[6]; o[19] = i[1] + i[7]; o[20] = i[2] + i[8]; o[21] = i[3] + i[9]; o[22] = i[4] + i[10]; o[23] = i[5] + i[11];o[24] = i[0] + i[6]; o[25] = i[1] + i[7]; o[26] = i[2] + i[8]; o[27] = i[3] + i[9]; o[28] = i[4] + i[10]; o[29] = i[5] + i[11];o[30] = i[0] + i[6]; o[31] = i[1] + i[7]; o[32] = i[2] + i[8]; o[33] = i[3] + i[9]; o[34] = i[4] + i[10]; o[35] = i[5] + i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x2_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    o[0] = i[0] - i[6]; o[1] = i[1] - i[7]; o[2] = i[2] - i[8]; o[3] = i[3] - i[9]; o[4] = i[4] - i[10]; o[5] = i[5] - i[11];o[6] = i[0] - i[6]; o[7] = i[1] - i[7]; o[8] = i[2] - i[8]; o[9] = i[3] - i[9]; o[10] = i[4] - i[10]; o[11] = i[5] - i[11];o[12] = i[0] - i[6]; o[13] = i[1] - i[7]; o[14] = i[2] - i[8]; o[15] = i[3] - i[9]; o[16] = i[4] - i[10]; o[17] = i[5] - i[11];o[18] = i[0] - i[6]; o[19] = i[1] - i[7]; o[20] = i[2] - i[8]; o[21] = i[3] - i[9]; o[22] = i[4] - i[10]; o[23] = i[5] - i[11];o[24] = i[0] - i[6]; o[25] = i[1] - i[7]; o[26] = i[2] - i[8]; o[27] = i[3] - i[9]; o[28] = i[4] - i[10]; o[29] = i[5] - i[11];o[30] = i[0] - i[6]; o[31] = i[1] - i[7]; o[32] = i[2] - i[8]; o[33] = i[3] - i[9]; o[34] = i[4] - i[10]; o[35] = i[5] - i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 36]) -> bool {
    let s = i[12]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s; o[8] = i[8] * s; o[9] = i[9] * s; o[10] = i[10] * s; o[11] = i[11] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s; o[16] = i[4] * s; o[17] = i[5] * s; o[18] = i[6] * s; o[19] = i[7] * s; o[20] = i[8] * s; o[21] = i[9] * s; o[22] = i[10] * s; o[23] = i[11] * s;o[24] = i[0] * s; o[25] = i[1] * s; o[26] = i[2] * s; o[27] = i[3] * s; o[28] = i[4] * s; o[29] = i[5] * s; o[30] = i[6] * s; o[31] = i[7] * s; o[32] = i[8] * s; o[33] = i[9] * s; o[34] = i[10] * s; o[35] = i[11] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 36]) -> bool {
    let s = i[12]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; o[18] = i[6] / s; o[19] = i[7] / s; o[20] = i[8] / s; o[21] = i[9] / s; o[22] = i[10] / s; o[23] = i[11] / s;o[24] = i[0] / s; o[25] = i[1] / s; o[26] = i[2] / s; o[27] = i[3] / s; o[28] = i[4] / s; o[29] = i[5] / s; o[30] = i[6] / s; o[31] = i[7] / s; o[32] = i[8] / s; o[33] = i[9] / s; o[34] = i[10] / s; o[35] = i[11] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 36]) -> bool {
    let s = i[12]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; o[18] = i[6] % s; o[19] = i[7] % s; o[20] = i[8] % s; o[21] = i[9] % s; o[22] = i[10] % s; o[23] = i[11] % s;o[24] = i[0] % s; o[25] = i[1] % s; o[26] = i[2] % s; o[27] = i[3] % s; o[28] = i[4] % s; o[29] = i[5] % s; o[30] = i[6] % s; o[31] = i[7] % s; o[32] = i[8] % s; o[33] = i[9] % s; o[34] = i[10] % s; o[35] = i[11] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x3_f32(i: &[f32; 24], o: &mut [f32; 72]) -> bool {
    o[0] = i[0] + i[12]; o[1] = i[1] + i[13]; o[2] = i[2] + i[14]; o[3] = i[3] + i[15]; o[4] = i[4] + i[16]; o[5] = i[5] + i[17]; o[6] = i[6] + i[18]; o[7] = i[7] + i[19]; o[8] = i[8] + i[20]; o[9] = i[9] + i[21]; o[10] = i[10] + i[22]; o[11] = i[11] + i[23];o[12] = i[0] + i[12]; o[13] = i[1] + i[13]; o[14] = i[2] + i[14]; o[15] = i[3] + i[15]; o[16] = i[4] + i[16]; o[17] = i[5] + i[17]; o[18] = i[6] + i[18]; o[19] = i[7] + i[19]; o[20] = i[8] + i[20]; o[21] = i[9] + i[21]; o[22] = i[10] + i[22]; o[23] = i[11] + i[23];o[24] = i[0] + i[12]; o[25] = i[1] + i[13]; o[26] = i[2] + i[14]; o[27] = i[3] + i[15]; o[28] = i[4] + i[16]; o[29] = i[5] + i[17]; o[30] = i[6] + i[18]; o[31] = i[7] + i[19]; o[32] = i[8] + i[20]; o[33] = i[9] + i[21]; o[34] = i[10] + i[22]; o[35] = i[11] + i[23];o[36] = i[0] + i[12]; o[37] = i[1] + i[13]; o[38] = i[2] + i[14]; o[39] = i[3] + i[15]; o[40] = i[4] + i[16]; o[41] = i[5] + i[17]; o[42] = i[6] + i[18]; o[43] = i[7] + i[19]; o[44] = i[8] + i[20]; o[45] = i[9] + i[21]; o[46] = i[10] + i[22]; o[47] = i[11] + i[23];o[48] = i[0] + i[12]; o[49] = i[1] + i[13]; o[50] = i[2] + i[14]; o[51] = i[3] + i[15]; o[52] = i[4] + i[16]; o[53] = i[5] + i[17]; o[54] = i[6] + i[18]; o[55] = i[7] + i[19]; o[56] = i[8] + i[20]; o[57] = i[9] + i[21]; o[58] = i[10] + i[22]; o[59] = i[11] + i[23];o[60] = i[0] + i[12]; o[61] = i[1] + i[13]; o[62] = i[2] + i[14]; o[63] = i[3] + i[15]; o[64] = i[4] + i[16]; o[65] = i[5] + i[17]; o[66] = i[6] + i[18]; o[67] = i[7] + i[19]; o[68] = i[8] + i[20]; o[69] = i[9] + i[21]; o[70] = i[10] + i[22]; o[71] = i[11] + i[23]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x3_f32(i: &[f32; 24], o: &mut [f32; 72]) -> bool {
    o[0] = i[0] - i[12]; o[1] = i[1] - i[13]; o[2] = i[2] - i[14]; o[3] = i[3] - i[15]; o[4] = i[4] - i[16]; o[5] = i[5] - i[17]; o[6] = i[6] - i[18]; o[7] = i[7] - i[19]; o[8] = i[8] - i[20]; o[9] = i[9] - i[21]; o[10] = i[10] - i[22]; o[11] = i[11] - i[23];o[12] = i[0] - i[12]; o[13] = i[1] - i[13]; o[14] = i[2] - i[14]; o[15] = i[3] - i[15]; o[16] = i[4] - i[16]; o[17] = i[5] - i[17]; o[18] = i[6] - i[18]; o[19] = i[7] - i[19]; o[20] = i[8] - i[20]; o[21] = i[9] - i[21]; o[22] = i[10] - i[22]; o[23] = i[11] - i[23];o[24] = i[0] - i[12]; o[25] = i[1] - i[13]; o[26] = i[2] - i[14]; o[27] = i[3] - i[15]; o[28] = i[4] - i[16]; o[29] = i[5] - i[17]; o[30] = i[6] - i[18]; o[31] = i[7] - i[19]; o[32] = i[8] - i[20]; o[33] = i[9] - i[21]; o[34] = i[10] - i[22]; o[35] = i[11] - i[23];o[36] = i[0] - i[12]; o[37] = i[1] - i[13]; o[38] = i[2] - i[14]; o[39] = i[3] - i[15]; o[40] = i[4] - i[16]; o[41] = i[5] - i[17]; o[42] = i[6] - i[18]; o[43] = i[7] - i[19]; o[44] = i[8] - i[20]; o[45] = i[9] - i[21]; o[46] = i[10] - i[22]; o[47] = i[11] - i[23];o[48] = i[0] - i[12]; o[49] = i[1] - i[13]; o[50] = i[2] - i[14]; o[51] = i[3] - i[15]; o[52] = i[4] - i[16]; o[53] = i[5] - i[17]; o[54] = i[6] - i[18]; o[55] = i[7] - i[19]; o[56] = i[8] - i[20]; o[57] = i[9] - i[21]; o[58] = i[10] - i[22]; o[59] = i[11] - i[23];o[60] = i[0] - i[12]; o[61] = i[1] - i[13]; o[62] = i[2] - i[14]; o[63] = i[3] - i[15]; o[64] = i[4] - i[16]; o[65] = i[5] - i[17]; o[66] = i[6] - i[18]; o[67] = i[7] - i[19]; o[68] = i[8] - i[20]; o[69] = i[9] - i[21]; o[70] = i[10] - i[22]; o[71] = i[11] - i[23]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 24]) -> bool {
    let s = i[8]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; o[12] = i[4] * s; o[13] = i[5] * s; o[14] = i[6] * s; o[15] = i[7] * s;o[16] = i[0] * s; o[17] = i[1] * s; o[18] = i[2] * s; o[19] = i[3] * s; o[20] = i[4] * s; o[21] = i[5] * s; o[22] = i[6] * s; o[23] = i[7] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 24]) -> bool {
    let s = i[8]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; o[12] = i[4] / s; o[13] = i[5] / s; o[14] = i[6] / s; o[15] = i[7] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 24]) -> bool {
    let s = i[8]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; o[12] = i[4] % s; o[13] = i[5] % s; o[14] = i[6] % s; o[15] = i[7] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x2_f32(i: &[f32; 16], o: &mut [f32; 48]) -> bool {
    o[0] = i[0] + i[8]; o[1] = i[1] + i[9]; o[2] = i[2] + i[10]; o[3] = i[3] + i[11]; o[4] = i[4] + i[12]; o[5] = i[5] + i[13]; o[6] = i[6] + i[14]; o[7] = i[7] + i[15];o[8] = i[0] + i[8]; o[9] = i[1] + i[9]; o[10] = i[2] + i[10]; o[11] = i[3] + i[11]; o[12] = i[4] + i[12]; o[13] = i[5] + i[13]; o[14] = i[6] + i[14]; o[15] = i[7] + i[15];o[16] = i[0] + i[8]; o[17] = i[1] + i[9]; o[18] = i[2] + i[10]; o[19] = i[3] + i[11]; o[20] = i[4] + i[12]; o[21] = i[5] + i[13]; o[22] = i[6] + i[14]; o[23] = i[7] + i[15];o[24] = i[0] + i[8]; o[25] = i[1] + i[9]; o[26] = i[2] + i[10]; o[27] = i[3] + i[11]; o[28] = i[4] + i[12]; o[29] = i[5] + i[13]; o[30] = i[6] + i[14]; o[31] = i[7] + i[15];o[32] = i[0] + i[8]; o[33] = i[1] + i[9]; o[34] = i[2] + i[10]; o[35] = i[3] + i[11]; o[36] = i[4] + i[12]; o[37] = i[5] + i[13]; o[38] = i[6] + i[14]; o[39] = i[7] + i[15];o[40] = i[0] + i[8]; o[41] = i[1] + i[9]; o[42] = i[2] + i[10]; o[43] = i[3] + i[11]; o[44] = i[4] + i[12]; o[45] = i[5] + i[13]; o[46] = i[6] + i[14]; o[47] = i[7] + i[15]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x2_f32(i: &[f32; 16], o: &mut [f32; 48]) -> bool {
    o[0] = i[0] - i[8]; o[1] = i[1] - i[9]; o[2] = i[2] - i[10]; o[3] = i[3] - i[11]; o[4] = i[4] - i[12]; o[5] = i[5] - i[13]; o[6] = i[6] - i[14]; o[7] = i[7] - i[15];o[8] = i[0] - i[8]; o[9] = i[1] - i[9]; o[10] = i[2] - i[10]; o[11] = i[3] - i[11]; o[12] = i[4] - i[12]; o[13] = i[5] - i[13]; o[14] = i[6] - i[14]; o[15] = i[7] - i[15];o[16] = i[0] - i[8]; o[17] = i[1] - i[9]; o[18] = i[2] - i[10]; o[19] = i[3] - i[11]; o[20] = i[4] - i[12]; o[21] = i[5] - i[13]; o[22] = i[6] - i[14]; o[23] = i[7] - i[15];o[24] = i[0] - i[8]; o[25] = i[1] - i[9]; o[26] = i[2] - i[10]; o[27] = i[3] - i[11]; o[28] = i[4] - i[12]; o[29] = i[5] - i[13]; o[30] = i[6] - i[14]; o[31] = i[7] - i[15];o[32] = i[0] - i[8]; o[33] = i[1] - i[9]; o[34] = i[2] - i[10]; o[35] = i[3] - i[11]; o[36] = i[4] - i[12]; o[37] = i[5] - i[13]; o[38] = i[6] - i[14]; o[39] = i[7] - i[15];o[40] = i[0] - i[8]; o[41] = i[1] - i[9]; o[42] = i[2] - i[10]; o[43] = i[3] - i[11]; o[44] = i[4] - i[12]; o[45] = i[5] - i[13]; o[46] = i[6] - i[14]; o[47] = i[7] - i[15]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_mul_scalar_quaternion_f32(i: &[f32; 5], o: &mut [f32; 20]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s;o[16] = i[0] * s; o[17] = i[1] * s; o[18] = i[2] * s; o[19] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_div_scalar_quaternion_f32(i: &[f32; 5], o: &mut [f32; 20]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_rem_scalar_quaternion_f32(i: &[f32; 5], o: &mut [f32; 20]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_add_quaternion_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_sub_quaternion_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_mul_scalar_complex_f32(i: &[f32; 3], o: &mut [f32; 10]) -> bool {
    let s = i[2]; o[0] = i[0] * s; o[1] = i[1] * s;o[2] = i[0] * s; o[3] = i[1] * s;o[4] = i[0] * s; o[5] = i[1] * s;o[6] = i[0] * s; o[7] = i[1] * s;o[8] = i[0] * s; o[9] = i[1] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_scalar_complex_f32(i: &[f32; 3], o: &mut [f32; 10]) -> bool {
    let s = i[2]; o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s;o[6] = i[0] / s; o[7] = i[1] / s;o[8] = i[0] / s; o[9] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_rem_scalar_complex_f32(i: &[f32; 3], o: &mut [f32; 10]) -> bool {
    let s = i[2]; o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s;o[6] = i[0] % s; o[7] = i[1] % s;o[8] = i[0] % s; o[9] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_add_complex_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] + i[2]; o[1] = i[1] + i[3];o[2] = i[0] + i[2]; o[3] = i[1] + i[3];o[4] = i[0] + i[2]; o[5] = i[1] + i[3];o[6] = i[0] + i[2]; o[7] = i[1] + i[3];o[8] = i[0] + i[2]; o[9] = i[1] + i[3];o[10] = i[0] + i[2]; o[11] = i[1] + i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_sub_complex_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = i[0] - i[2]; o[1] = i[1] - i[3];o[2] = i[0] - i[2]; o[3] = i[1] - i[3];o[4] = i[0] - i[2]; o[5] = i[1] - i[3];o[6] = i[0] - i[2]; o[7] = i[1] - i[3];o[8] = i[0] - i[2]; o[9] = i[1] - i[3];o[10] = i[0] - i[2]; o[11] = i[1] - i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_complex_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let d = (i[2] * i[2]) + i[3] * i[3];o[0] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[1] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[2] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[3] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[4] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[5] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[6] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[7] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[8] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[9] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[10] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[11] = ((i[1] * i[2]) - i[0] * i[3]) / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] * s;o[1] = i[0] * s;o[2] = i[0] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] + i[1];o[1] = i[0] + i[1];o[2] = i[0] + i[1];o[3] = i[0] + i[1];o[4] = i[0] + i[1];o[5] = i[0] + i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1];o[4] = i[0] - i[1];o[5] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let s = i[2]; o[0] = i[0] * s; o[1] = i[1] * s;o[2] = i[0] * s; o[3] = i[1] * s;o[4] = i[0] * s; o[5] = i[1] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let s = i[2]; o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let s = i[2]; o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] + i[2]; o[1] = i[1] + i[3];o[2] = i[0] + i[2]; o[3] = i[1] + i[3];o[4] = i[0] + i[2]; o[5] = i[1] + i[3];o[6] = i[0] + i[2]; o[7] = i[1] + i[3];o[8] = i[0] + i[2]; o[9] = i[1] + i[3];o[10] = i[0] + i[2]; o[11] = i[1] + i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] - i[2]; o[1] = i[1] - i[3];o[2] = i[0] - i[2]; o[3] = i[1] - i[3];o[4] = i[0] - i[2]; o[5] = i[1] - i[3];o[6] = i[0] - i[2]; o[7] = i[1] - i[3];o[8] = i[0] - i[2]; o[9] = i[1] - i[3];o[10] = i[0] - i[2]; o[11] = i[1] - i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let s = i[3]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s;o[3] = i[0] * s; o[4] = i[1] * s; o[5] = i[2] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let s = i[3]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let s = i[3]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    o[0] = i[0] + i[3]; o[1] = i[1] + i[4]; o[2] = i[2] + i[5];o[3] = i[0] + i[3]; o[4] = i[1] + i[4]; o[5] = i[2] + i[5];o[6] = i[0] + i[3]; o[7] = i[1] + i[4]; o[8] = i[2] + i[5];o[9] = i[0] + i[3]; o[10] = i[1] + i[4]; o[11] = i[2] + i[5];o[12] = i[0] + i[3]; o[13] = i[1] + i[4]; o[14] = i[2] + i[5];o[15] = i[0] + i[3]; o[16] = i[1] + i[4]; o[17] = i[2] + i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    o[0] = i[0] - i[3]; o[1] = i[1] - i[4]; o[2] = i[2] - i[5];o[3] = i[0] - i[3]; o[4] = i[1] - i[4]; o[5] = i[2] - i[5];o[6] = i[0] - i[3]; o[7] = i[1] - i[4]; o[8] = i[2] - i[5];o[9] = i[0] - i[3]; o[10] = i[1] - i[4]; o[11] = i[2] - i[5];o[12] = i[0] - i[3]; o[13] = i[1] - i[4]; o[14] = i[2] - i[5];o[15] = i[0] - i[3]; o[16] = i[1] - i[4]; o[17] = i[2] - i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_vector4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_vector4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_vector4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_vector4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_vector4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] * s;o[1] = i[0] * s;o[2] = i[0] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] + i[1];o[1] = i[0] + i[1];o[2] = i[0] + i[1];o[3] = i[0] + i[1];o[4] = i[0] + i[1];o[5] = i[0] + i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1];o[4] = i[0] - i[1];o[5] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let s = i[2]; o[0] = i[0] * s; o[1] = i[1] * s;o[2] = i[0] * s; o[3] = i[1] * s;o[4] = i[0] * s; o[5] = i[1] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let s = i[2]; o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let s = i[2]; o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] + i[2]; o[1] = i[1] + i[3];o[2] = i[0] + i[2]; o[3] = i[1] + i[3];o[4] = i[0] + i[2]; o[5] = i[1] + i[3];o[6] = i[0] + i[2]; o[7] = i[1] + i[3];o[8] = i[0] + i[2]; o[9] = i[1] + i[3];o[10] = i[0] + i[2]; o[11] = i[1] + i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] - i[2]; o[1] = i[1] - i[3];o[2] = i[0] - i[2]; o[3] = i[1] - i[3];o[4] = i[0] - i[2]; o[5] = i[1] - i[3];o[6] = i[0] - i[2]; o[7] = i[1] - i[3];o[8] = i[0] - i[2]; o[9] = i[1] - i[3];o[10] = i[0] - i[2]; o[11] = i[1] - i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_mul_scalar_point3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let s = i[3]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s;o[3] = i[0] * s; o[4] = i[1] * s; o[5] = i[2] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_div_scalar_point3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let s = i[3]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s;o[3] = i[0] / s; o[4] = i[1] / s; o[5] = i[2] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_rem_scalar_point3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let s = i[3]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s;o[3] = i[0] % s; o[4] = i[1] % s; o[5] = i[2] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_add_point3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    o[0] = i[0] + i[3]; o[1] = i[1] + i[4]; o[2] = i[2] + i[5];o[3] = i[0] + i[3]; o[4] = i[1] + i[4]; o[5] = i[2] + i[5];o[6] = i[0] + i[3]; o[7] = i[1] + i[4]; o[8] = i[2] + i[5];o[9] = i[0] + i[3]; o[10] = i[1] + i[4]; o[11] = i[2] + i[5];o[12] = i[0] + i[3]; o[13] = i[1] + i[4]; o[14] = i[2] + i[5];o[15] = i[0] + i[3]; o[16] = i[1] + i[4]; o[17] = i[2] + i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_sub_point3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    o[0] = i[0] - i[3]; o[1] = i[1] - i[4]; o[2] = i[2] - i[5];o[3] = i[0] - i[3]; o[4] = i[1] - i[4]; o[5] = i[2] - i[5];o[6] = i[0] - i[3]; o[7] = i[1] - i[4]; o[8] = i[2] - i[5];o[9] = i[0] - i[3]; o[10] = i[1] - i[4]; o[11] = i[2] - i[5];o[12] = i[0] - i[3]; o[13] = i[1] - i[4]; o[14] = i[2] - i[5];o[15] = i[0] - i[3]; o[16] = i[1] - i[4]; o[17] = i[2] - i[5]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] * s;o[1] = i[0] * s;o[2] = i[0] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] / s;o[1] = i[0] / s;o[2] = i[0] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let s = i[1]; o[0] = i[0] % s;o[1] = i[0] % s;o[2] = i[0] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] + i[1];o[1] = i[0] + i[1];o[2] = i[0] + i[1];o[3] = i[0] + i[1];o[4] = i[0] + i[1];o[5] = i[0] + i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    o[0] = i[0] - i[1];o[1] = i[0] - i[1];o[2] = i[0] - i[1];o[3] = i[0] - i[1];o[4] = i[0] - i[1];o[5] = i[0] - i[1]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x2_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x2_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 27]) -> bool {
    let s = i[9]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s; o[8] = i[8] * s;o[9] = i[0] * s; o[10] = i[1] * s; o[11] = i[2] * s; o[12] = i[3] * s; o[13] = i[4] * s; o[14] = i[5] * s; o[15] = i[6] * s; o[16] = i[7] * s; o[17] = i[8] * s;o[18] = i[0] * s; o[19] = i[1] * s; o[20] = i[2] * s; o[21] = i[3] * s; o[22] = i[4] * s; o[23] = i[5] * s; o[24] = i[6] * s; o[25] = i[7] * s; o[26] = i[8] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 27]) -> bool {
    let s = i[9]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s;o[9] = i[0] / s; o[10] = i[1] / s; o[11] = i[2] / s; o[12] = i[3] / s; o[13] = i[4] / s; o[14] = i[5] / s; o[15] = i[6] / s; o[16] = i[7] / s; o[17] = i[8] / s;o[18] = i[0] / s; o[19] = i[1] / s; o[20] = i[2] / s; o[21] = i[3] / s; o[22] = i[4] / s; o[23] = i[5] / s; o[24] = i[6] / s; o[25] = i[7] / s; o[26] = i[8] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 27]) -> bool {
    let s = i[9]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s;o[9] = i[0] % s; o[10] = i[1] % s; o[11] = i[2] % s; o[12] = i[3] % s; o[13] = i[4] % s; o[14] = i[5] % s; o[15] = i[6] % s; o[16] = i[7] % s; o[17] = i[8] % s;o[18] = i[0] % s; o[19] = i[1] % s; o[20] = i[2] % s; o[21] = i[3] % s; o[22] = i[4] % s; o[23] = i[5] % s; o[24] = i[6] % s; o[25] = i[7] % s; o[26] = i[8] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x3_f64(i: &[f64; 18], o: &mut [f64; 54]) -> bool {
    o[0] = i[0] + i[9]; o[1] = i[1] + i[10]; o[2] = i[2] + i[11]; o[3] = i[3] + i[12]; o[4] = i[4] + i[13]; o[5] = i[5] + i[14]; o[6] = i[6] + i[15]; o[7] = i[7] + i[16]; o[8] = i[8] + i[17];o[9] = i[0] + i[9]; o[10] = i[1] + i[10]; o[11] = i[2] + i[11]; o[12] = i[3] + i[12]; o[13] = i[4] + i[13]; o[14] = i[5] + i[14]; o[15] = i[6] + i[15]; o[16] = i[7] + i[16]; o[17] = i[8] + i[17];o[18] = i[0] + i[9]; o[19] = i[1] + i[10]; o[20] = i[2] + i[11]; o[21] = i[3] + i[12]; o[22] = i[4] + i[13]; o[23] = i[5] + i[14]; o[24] = i[6] + i[15]; o[25] = i[7] + i[16]; o[26] = i[8] + i[17];o[27] = i[0] + i[9]; o[28] = i[1] + i[10]; o[29] = i[2] + i[11]; o[30] = i[3] + i[12]; o[31] = i[4] + i[13]; o[32] = i[5] + i[14]; o[33] = i[6] + i[15]; o[34] = i[7] + i[16]; o[35] = i[8] + i[17];o[36] = i[0] + i[9]; o[37] = i[1] + i[10]; o[38] = i[2] + i[11]; o[39] = i[3] + i[12]; o[40] = i[4] + i[13]; o[41] = i[5] + i[14]; o[42] = i[6] + i[15]; o[43] = i[7] + i[16]; o[44] = i[8] + i[17];o[45] = i[0] + i[9]; o[46] = i[1] + i[10]; o[47] = i[2] + i[11]; o[48] = i[3] + i[12]; o[49] = i[4] + i[13]; o[50] = i[5] + i[14]; o[51] = i[6] + i[15]; o[52] = i[7] + i[16]; o[53] = i[8] + i[17]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x3_f64(i: &[f64; 18], o: &mut [f64; 54]) -> bool {
    o[0] = i[0] - i[9]; o[1] = i[1] - i[10]; o[2] = i[2] - i[11]; o[3] = i[3] - i[12]; o[4] = i[4] - i[13]; o[5] = i[5] - i[14]; o[6] = i[6] - i[15]; o[7] = i[7] - i[16]; o[8] = i[8] - i[17];o[9] = i[0] - i[9]; o[10] = i[1] - i[10]; o[11] = i[2] - i[11]; o[12] = i[3] - i[12]; o[13] = i[4] - i[13]; o[14] = i[5] - i[14]; o[15] = i[6] - i[15]; o[16] = i[7] - i[16]; o[17] = i[8] - i[17];o[18] = i[0] - i[9]; o[19] = i[1] - i[10]; o[20] = i[2] - i[11]; o[21] = i[3] - i[12]; o[22] = i[4] - i[13]; o[23] = i[5] - i[14]; o[24] = i[6] - i[15]; o[25] = i[7] - i[16]; o[26] = i[8] - i[17];o[27] = i[0] - i[9]; o[28] = i[1] - i[10]; o[29] = i[2] - i[11]; o[30] = i[3] - i[12]; o[31] = i[4] - i[13]; o[32] = i[5] - i[14]; o[33] = i[6] - i[15]; o[34] = i[7] - i[16]; o[35] = i[8] - i[17];o[36] = i[0] - i[9]; o[37] = i[1] - i[10]; o[38] = i[2] - i[11]; o[39] = i[3] - i[12]; o[40] = i[4] - i[13]; o[41] = i[5] - i[14]; o[42] = i[6] - i[15]; o[43] = i[7] - i[16]; o[44] = i[8] - i[17];o[45] = i[0] - i[9]; o[46] = i[1] - i[10]; o[47] = i[2] - i[11]; o[48] = i[3] - i[12]; o[49] = i[4] - i[13]; o[50] = i[5] - i[14]; o[51] = i[6] - i[15]; o[52] = i[7] - i[16]; o[53] = i[8] - i[17]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 48]) -> bool {
    let s = i[16]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s; o[8] = i[8] * s; o[9] = i[9] * s; o[10] = i[10] * s; o[11] = i[11] * s; o[12] = i[12] * s; o[13] = i[13] * s; o[14] = i[14] * s; o[15] = i[15] * s;o[16] = i[0] * s; o[17] = i[1] * s; o[18] = i[2] * s; o[19] = i[3] * s; o[20] = i[4] * s; o[21] = i[5] * s; o[22] = i[6] * s; o[23] = i[7] * s; o[24] = i[8] * s; o[25] = i[9] * s; o[26] = i[10] * s; o[27] = i[11] * s; o[28] = i[12] * s; o[29] = i[13] * s; o[30] = i[14] * s; o[31] = i[15] * s;o[32] = i[0] * s; o[33] = i[1] * s; o[34] = i[2] * s; o[35] = i[3] * s; o[36] = i[4] * s; o[37] = i[5] * s; o[38] = i[6] * s; o[39] = i[7] * s; o[40] = i[8] * s; o[41] = i[9] * s; o[42] = i[10] * s; o[43] = i[11] * s; o[44] = i[12] * s; o[45] = i[13] * s; o[46] = i[14] * s; o[47] = i[15] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 48]) -> bool {
    let s = i[16]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s; o[12] = i[12] / s; o[13] = i[13] / s; o[14] = i[14] / s; o[15] = i[15] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; o[24] = i[8] / s; o[25] = i[9] / s; o[26] = i[10] / s; o[27] = i[11] / s; o[28] = i[12] / s; o[29] = i[13] / s; o[30] = i[14] / s; o[31] = i[15] / s;o[32] = i[0] / s; o[33] = i[1] / s; o[34] = i[2] / s; o[35] = i[3] / s; o[36] = i[4] / s; o[37] = i[5] / s; o[38] = i[6] / s; o[39] = i[7] / s; o[40] = i[8] / s; o[41] = i[9] / s; o[42] = i[10] / s; o[43] = i[11] / s; o[44] = i[12] / s; o[45] = i[13] / s; o[46] = i[14] / s; o[47] = i[15] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 48]) -> bool {
    let s = i[16]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s; o[12] = i[12] % s; o[13] = i[13] % s; o[14] = i[14] % s; o[15] = i[15] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; o[24] = i[8] % s; o[25] = i[9] % s; o[26] = i[10] % s; o[27] = i[11] % s; o[28] = i[12] % s; o[29] = i[13] % s; o[30] = i[14] % s; o[31] = i[15] % s;o[32] = i[0] % s; o[33] = i[1] % s; o[34] = i[2] % s; o[35] = i[3] % s; o[36] = i[4] % s; o[37] = i[5] % s; o[38] = i[6] % s; o[39] = i[7] % s; o[40] = i[8] % s; o[41] = i[9] % s; o[42] = i[10] % s; o[43] = i[11] % s; o[44] = i[12] % s; o[45] = i[13] % s; o[46] = i[14] % s; o[47] = i[15] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x4_f64(i: &[f64; 32], o: &mut [f64; 96]) -> bool {
    o[0] = i[0] + i[16]; o[1] = i[1] + i[17]; o[2] = i[2] + i[18]; o[3] = i[3] + i[19]; o[4] = i[4] + i[20]; o[5] = i[5] + i[21]; o[6] = i[6] + i[22]; o[7] = i[7] + i[23]; o[8] = i[8] + i[24]; o[9] = i[9] + i[25]; o[10] = i[10] + i[26]; o[11] = i[11] + i[27]; o[12] = i[12] + i[28]; o[13] = i[13] + i[29]; o[14] = i[14] + i[30]; o[15] = i[15] + i[31];o[16] = i[0] + i[16]; o[17] = i[1] + i[17]; o[18] = i[2] + i[18]; o[19] = i[3] + i[19]; o[20] = i[4] + i[20]; o[21] = i[5] + i[21]; o[22] = i[6] + i[22]; o[23] = i[7] + i[23]; o[24] = i[8] + i[24]; o[25] = i[9] + i[25]; o[26] = i[10] + i[26]; o[27] = i[11] + i[27]; o[28] = i[12] + i[28]; o[29] = i[13] + i[29]; o[30] = i[14] + i[30]; o[31] = i[15] + i[31];o[32] = i[0] + i[16]; o[33] = i[1] + i[17]; o[34] = i[2] + i[18]; o[35] = i[3] + i[19]; o[36] = i[4] + i[20]; o[37] = i[5] + i[21]; o[38] = i[6] + i[22]; o[39] = i[7] + i[23]; o[40] = i[8] + i[24]; o[41] = i[9] + i[25]; o[42] = i[10] + i[26]; o[43] = i[11] + i[27]; o[44] = i[12] + i[28]; o[45] = i[13] + i[29]; o[46] = i[14] + i[30]; o[47] = i[15] + i[31];o[48] = i[0] + i[16]; o[49] = i[1] + i[17]; o[50] = i[2] + i[18]; o[51] = i[3] + i[19]; o[52] = i[4] + i[20]; o[53] = i[5] + i[21]; o[54] = i[6] + i[22]; o[55] = i[7] + i[23]; o[56] = i[8] + i[24]; o[57] = i[9] + i[25]; o[58] = i[10] + i[26]; o[59] = i[11] + i[27]; o[60] = i[12] + i[28]; o[61] = i[13] + i[29]; o[62] = i[14] + i[30]; o[63] = i[15] + i[31];o[64] = i[0] + i[16]; o[65] = i[1] + i[17]; o[66] = i[2] + i[18]; o[67] = i[3] + i[19]; o[68] = i[4] + i[20]; o[69] = i[5] + i[21]; o[70] = i[6] + i[22]; o[71] = i[7] + i[23]; o[72] = i[8] + i[24]; o[73] = i[9] + i[25]; o[74] = i[10] + i[26]; o[75] = i[11] + i[27]; o[76] = i[12] + i[28]; o[77] = i[13] + i[29]; o[78] = i[14] + i[30]; o[79] = i[15] + i[31];o[80] = i[0] + i[16]; o[81] = i[1] + i[17]; o[82] = i[2] + i[18]; o[83] = i[3] + i[19]; o[84] = i[4] + i[20]; o[85] = i[5] + i[21]; o[86] = i[6] + i[22]; o[87] = i[7] + i[23]; o[88] = i[8] + i[24]; o[89] = i[9] + i[25]; o[90] = i[10] + i[26]; o[91] = i[11] + i[27]; o[92] = i[12] + i[28]; o[93] = i[13] + i[29]; o[94] = i[14] + i[30]; o[95] = i[15] + i[31]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x4_f64(i: &[f64; 32], o: &mut [f64; 96]) -> bool {
    o[0] = i[0] - i[16]; o[1] = i[1] - i[17]; o[2] = i[2] - i[18]; o[3] = i[3] - i[19]; o[4] = i[4] - i[20]; o[5] = i[5] - i[21]; o[6] = i[6] - i[22]; o[7] = i[7] - i[23]; o[8] = i[8] - i[24]; o[9] = i[9] - i[25]; o[10] = i[10] - i[26]; o[11] = i[11] - i[27]; o[12] = i[12] - i[28]; o[13] = i[13] - i[29]; o[14] = i[14] - i[30]; o[15] = i[15] - i[31];o[16] = i[0] - i[16]; o[17] = i[1] - i[17]; o[18] = i[2] - i[18]; o[19] = i[3] - i[19]; o[20] = i[4] - i[20]; o[21] = i[5] - i[21]; o[22] = i[6] - i[22]; o[23] = i[7] - i[23]; o[24] = i[8] - i[24]; o[25] = i[9] - i[25]; o[26] = i[10] - i[26]; o[27] = i[11] - i[27]; o[28] = i[12] - i[28]; o[29] = i[13] - i[29]; o[30] = i[14] - i[30]; o[31] = i[15] - i[31];o[32] = i[0] - i[16]; o[33] = i[1] - i[17]; o[34] = i[2] - i[18]; o[35] = i[3] - i[19]; o[36] = i[4] - i[20]; o[37] = i[5] - i[21]; o[38] = i[6] - i[22]; o[39] = i[7] - i[23]; o[40] = i[8] - i[24]; o[41] = i[9] - i[25]; o[42] = i[10] - i[26]; o[43] = i[11] - i[27]; o[44] = i[12] - i[28]; o[45] = i[13] - i[29]; o[46] = i[14] - i[30]; o[47] = i[15] - i[31];o[48] = i[0] - i[16]; o[49] = i[1] - i[17]; o[50] = i[2] - i[18]; o[51] = i[3] - i[19]; o[52] = i[4] - i[20]; o[53] = i[5] - i[21]; o[54] = i[6] - i[22]; o[55] = i[7] - i[23]; o[56] = i[8] - i[24]; o[57] = i[9] - i[25]; o[58] = i[10] - i[26]; o[59] = i[11] - i[27]; o[60] = i[12] - i[28]; o[61] = i[13] - i[29]; o[62] = i[14] - i[30]; o[63] = i[15] - i[31];o[64] = i[0] - i[16]; o[65] = i[1] - i[17]; o[66] = i[2] - i[18]; o[67] = i[3] - i[19]; o[68] = i[4] - i[20]; o[69] = i[5] - i[21]; o[70] = i[6] - i[22]; o[71] = i[7] - i[23]; o[72] = i[8] - i[24]; o[73] = i[9] - i[25]; o[74] = i[10] - i[26]; o[75] = i[11] - i[27]; o[76] = i[12] - i[28]; o[77] = i[13] - i[29]; o[78] = i[14] - i[30]; o[79] = i[15] - i[31];o[80] = i[0] - i[16]; o[81] = i[1] - i[17]; o[82] = i[2] - i[18]; o[83] = i[3] - i[19]; o[84] = i[4] - i[20]; o[85] = i[5] - i[21]; o[86] = i[6] - i[22]; o[87] = i[7] - i[23]; o[88] = i[8] - i[24]; o[89] = i[9] - i[25]; o[90] = i[10] - i[26]; o[91] = i[11] - i[27]; o[92] = i[12] - i[28]; o[93] = i[13] - i[29]; o[94] = i[14] - i[30]; o[95] = i[15] - i[31]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let s = i[6]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; o[9] = i[3] * s; o[10] = i[4] * s; o[11] = i[5] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s; o[16] = i[4] * s; o[17] = i[5] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let s = i[6]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let s = i[6]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix2x3_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    o[0] = i[0] + i[6]; o[1] = i[1] + i[7]; o[2] = i[2] + i[8]; o[3] = i[3] + i[9]; o[4] = i[4] + i[10]; o[5] = i[5] + i[11];o[6] = i[0] + i[6]; o[7] = i[1] + i[7]; o[8] = i[2] + i[8]; o[9] = i[3] + i[9]; o[10] = i[4] + i[10]; o[11] = i[5] + i[11];o[12] = i[0] + i[6]; o[13] = i[1] + i[7]; o[14] = i[2] + i[8]; o[15] = i[3] + i[9]; o[16] = i[4] + i[10]; o[17] = i[5] + i[11];o[18] = i[0] + i[6]; o[19] = i[1] + i[7]; o[20] = i[2] + i[8]; o[21] = i[3] + i[9]; o[22] = i[4] + i[10]; o[23] = i[5] + i[11];o[24] = i[0] + i[6]; o[25] = i[1] + i[7]; o[26] = i[2] + i[8]; o[27] = i[3] + i[9]; o[28] = i[4] + i[10]; o[29] = i[5] + i[11];o[30] = i[0] + i[6]; o[31] = i[1] + i[7]; o[32] = i[2] + i[8]; o[33] = i[3] + i[9]; o[34] = i[4] + i[10]; o[35] = i[5] + i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix2x3_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    o[0] = i[0] - i[6]; o[1] = i[1] - i[7]; o[2] = i[2] - i[8]; o[3] = i[3] - i[9]; o[4] = i[4] - i[10]; o[5] = i[5] - i[11];o[6] = i[0] - i[6]; o[7] = i[1] - i[7]; o[8] = i[2] - i[8]; o[9] = i[3] - i[9]; o[10] = i[4] - i[10]; o[11] = i[5] - i[11];o[12] = i[0] - i[6]; o[13] = i[1] - i[7]; o[14] = i[2] - i[8]; o[15] = i[3] - i[9]; o[16] = i[4] - i[10]; o[17] = i[5] - i[11];o[18] = i[0] - i[6]; o[19] = i[1] - i[7]; o[20] = i[2] - i[8]; o[21] = i[3] - i[9]; o[22] = i[4] - i[10]; o[23] = i[5] - i[11];o[24] = i[0] - i[6]; o[25] = i[1] - i[7]; o[26] = i[2] - i[8]; o[27] = i[3] - i[9]; o[28] = i[4] - i[10]; o[29] = i[5] - i[11];o[30] = i[0] - i[6]; o[31] = i[1] - i[7]; o[32] = i[2] - i[8]; o[33] = i[3] - i[9]; o[34] = i[4] - i[10]; o[35] = i[5] - i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let s = i[6]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s;o[6] = i[0] * s; o[7] = i[1] * s; o[8] = i[2] * s; o[9] = i[3] * s; o[10] = i[4] * s; o[11] = i[5] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s; o[16] = i[4] * s; o[17] = i[5] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let s = i[6]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s;o[6] = i[0] / s; o[7] = i[1] / s; o[8] = i[2] / s; o[9] = i[3] / s; o[10] = i[4] / s; o[11] = i[5] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let s = i[6]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s;o[6] = i[0] % s; o[7] = i[1] % s; o[8] = i[2] % s; o[9] = i[3] % s; o[10] = i[4] % s; o[11] = i[5] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix3x2_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    o[0] = i[0] + i[6]; o[1] = i[1] + i[7]; o[2] = i[2] + i[8]; o[3] = i[3] + i[9]; o[4] = i[4] + i[10]; o[5] = i[5] + i[11];o[6] = i[0] + i[6]; o[7] = i[1] + i[7]; o[8] = i[2] + i[8]; o[9] = i[3] + i[9]; o[10] = i[4] + i[10]; o[11] = i[5] + i[11];o[12] = i[0] + i[6]; o[13] = i[1] + i[7]; o[14] = i[2] + i[8]; o[15] = i[3] + i[9]; o[16] = i[4] + i[10]; o[17] = i[5] + i[11];o[18] = i[0] + i[6]; o[19] = i[1] + i[7]; o[20] = i[2] + i[8]; o[21] = i[3] + i[9]; o[22] = i[4] + i[10]; o[23] = i[5] + i[11];o[24] = i[0] + i[6]; o[25] = i[1] + i[7]; o[26] = i[2] + i[8]; o[27] = i[3] + i[9]; o[28] = i[4] + i[10]; o[29] = i[5] + i[11];o[30] = i[0] + i[6]; o[31] = i[1] + i[7]; o[32] = i[2] + i[8]; o[33] = i[3] + i[9]; o[34] = i[4] + i[10]; o[35] = i[5] + i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix3x2_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    o[0] = i[0] - i[6]; o[1] = i[1] - i[7]; o[2] = i[2] - i[8]; o[3] = i[3] - i[9]; o[4] = i[4] - i[10]; o[5] = i[5] - i[11];o[6] = i[0] - i[6]; o[7] = i[1] - i[7]; o[8] = i[2] - i[8]; o[9] = i[3] - i[9]; o[10] = i[4] - i[10]; o[11] = i[5] - i[11];o[12] = i[0] - i[6]; o[13] = i[1] - i[7]; o[14] = i[2] - i[8]; o[15] = i[3] - i[9]; o[16] = i[4] - i[10]; o[17] = i[5] - i[11];o[18] = i[0] - i[6]; o[19] = i[1] - i[7]; o[20] = i[2] - i[8]; o[21] = i[3] - i[9]; o[22] = i[4] - i[10]; o[23] = i[5] - i[11];o[24] = i[0] - i[6]; o[25] = i[1] - i[7]; o[26] = i[2] - i[8]; o[27] = i[3] - i[9]; o[28] = i[4] - i[10]; o[29] = i[5] - i[11];o[30] = i[0] - i[6]; o[31] = i[1] - i[7]; o[32] = i[2] - i[8]; o[33] = i[3] - i[9]; o[34] = i[4] - i[10]; o[35] = i[5] - i[11]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 36]) -> bool {
    let s = i[12]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s; o[8] = i[8] * s; o[9] = i[9] * s; o[10] = i[10] * s; o[11] = i[11] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s; o[16] = i[4] * s; o[17] = i[5] * s; o[18] = i[6] * s; o[19] = i[7] * s; o[20] = i[8] * s; o[21] = i[9] * s; o[22] = i[10] * s; o[23] = i[11] * s;o[24] = i[0] * s; o[25] = i[1] * s; o[26] = i[2] * s; o[27] = i[3] * s; o[28] = i[4] * s; o[29] = i[5] * s; o[30] = i[6] * s; o[31] = i[7] * s; o[32] = i[8] * s; o[33] = i[9] * s; o[34] = i[10] * s; o[35] = i[11] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 36]) -> bool {
    let s = i[12]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s; o[8] = i[8] / s; o[9] = i[9] / s; o[10] = i[10] / s; o[11] = i[11] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s; o[16] = i[4] / s; o[17] = i[5] / s; o[18] = i[6] / s; o[19] = i[7] / s; o[20] = i[8] / s; o[21] = i[9] / s; o[22] = i[10] / s; o[23] = i[11] / s;o[24] = i[0] / s; o[25] = i[1] / s; o[26] = i[2] / s; o[27] = i[3] / s; o[28] = i[4] / s; o[29] = i[5] / s; o[30] = i[6] / s; o[31] = i[7] / s; o[32] = i[8] / s; o[33] = i[9] / s; o[34] = i[10] / s; o[35] = i[11] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 36]) -> bool {
    let s = i[12]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s; o[8] = i[8] % s; o[9] = i[9] % s; o[10] = i[10] % s; o[11] = i[11] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s; o[16] = i[4] % s; o[17] = i[5] % s; o[18] = i[6] % s; o[19] = i[7] % s; o[20] = i[8] % s; o[21] = i[9] % s; o[22] = i[10] % s; o[23] = i[11] % s;o[24] = i[0] % s; o[25] = i[1] % s; o[26] = i[2] % s; o[27] = i[3] % s; o[28] = i[4] % s; o[29] = i[5] % s; o[30] = i[6] % s; o[31] = i[7] % s; o[32] = i[8] % s; o[33] = i[9] % s; o[34] = i[10] % s; o[35] = i[11] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x3_f64(i: &[f64; 24], o: &mut [f64; 72]) -> bool {
    o[0] = i[0] + i[12]; o[1] = i[1] + i[13]; o[2] = i[2] + i[14]; o[3] = i[3] + i[15]; o[4] = i[4] + i[16]; o[5] = i[5] + i[17]; o[6] = i[6] + i[18]; o[7] = i[7] + i[19]; o[8] = i[8] + i[20]; o[9] = i[9] + i[21]; o[10] = i[10] + i[22]; o[11] = i[11] + i[23];o[12] = i[0] + i[12]; o[13] = i[1] + i[13]; o[14] = i[2] + i[14]; o[15] = i[3] + i[15]; o[16] = i[4] + i[16]; o[17] = i[5] + i[17]; o[18] = i[6] + i[18]; o[19] = i[7] + i[19]; o[20] = i[8] + i[20]; o[21] = i[9] + i[21]; o[22] = i[10] + i[22]; o[23] = i[11] + i[23];o[24] = i[0] + i[12]; o[25] = i[1] + i[13]; o[26] = i[2] + i[14]; o[27] = i[3] + i[15]; o[28] = i[4] + i[16]; o[29] = i[5] + i[17]; o[30] = i[6] + i[18]; o[31] = i[7] + i[19]; o[32] = i[8] + i[20]; o[33] = i[9] + i[21]; o[34] = i[10] + i[22]; o[35] = i[11] + i[23];o[36] = i[0] + i[12]; o[37] = i[1] + i[13]; o[38] = i[2] + i[14]; o[39] = i[3] + i[15]; o[40] = i[4] + i[16]; o[41] = i[5] + i[17]; o[42] = i[6] + i[18]; o[43] = i[7] + i[19]; o[44] = i[8] + i[20]; o[45] = i[9] + i[21]; o[46] = i[10] + i[22]; o[47] = i[11] + i[23];o[48] = i[0] + i[12]; o[49] = i[1] + i[13]; o[50] = i[2] + i[14]; o[51] = i[3] + i[15]; o[52] = i[4] + i[16]; o[53] = i[5] + i[17]; o[54] = i[6] + i[18]; o[55] = i[7] + i[19]; o[56] = i[8] + i[20]; o[57] = i[9] + i[21]; o[58] = i[10] + i[22]; o[59] = i[11] + i[23];o[60] = i[0] + i[12]; o[61] = i[1] + i[13]; o[62] = i[2] + i[14]; o[63] = i[3] + i[15]; o[64] = i[4] + i[16]; o[65] = i[5] + i[17]; o[66] = i[6] + i[18]; o[67] = i[7] + i[19]; o[68] = i[8] + i[20]; o[69] = i[9] + i[21]; o[70] = i[10] + i[22]; o[71] = i[11] + i[23]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x3_f64(i: &[f64; 24], o: &mut [f64; 72]) -> bool {
    o[0] = i[0] - i[12]; o[1] = i[1] - i[13]; o[2] = i[2] - i[14]; o[3] = i[3] - i[15]; o[4] = i[4] - i[16]; o[5] = i[5] - i[17]; o[6] = i[6] - i[18]; o[7] = i[7] - i[19]; o[8] = i[8] - i[20]; o[9] = i[9] - i[21]; o[10] = i[10] - i[22]; o[11] = i[11] - i[23];o[12] = i[0] - i[12]; o[13] = i[1] - i[13]; o[14] = i[2] - i[14]; o[15] = i[3] - i[15]; o[16] = i[4] - i[16]; o[17] = i[5] - i[17]; o[18] = i[6] - i[18]; o[19] = i[7] - i[19]; o[20] = i[8] - i[20]; o[21] = i[9] - i[21]; o[22] = i[10] - i[22]; o[23] = i[11] - i[23];o[24] = i[0] - i[12]; o[25] = i[1] - i[13]; o[26] = i[2] - i[14]; o[27] = i[3] - i[15]; o[28] = i[4] - i[16]; o[29] = i[5] - i[17]; o[30] = i[6] - i[18]; o[31] = i[7] - i[19]; o[32] = i[8] - i[20]; o[33] = i[9] - i[21]; o[34] = i[10] - i[22]; o[35] = i[11] - i[23];o[36] = i[0] - i[12]; o[37] = i[1] - i[13]; o[38] = i[2] - i[14]; o[39] = i[3] - i[15]; o[40] = i[4] - i[16]; o[41] = i[5] - i[17]; o[42] = i[6] - i[18]; o[43] = i[7] - i[19]; o[44] = i[8] - i[20]; o[45] = i[9] - i[21]; o[46] = i[10] - i[22]; o[47] = i[11] - i[23];o[48] = i[0] - i[12]; o[49] = i[1] - i[13]; o[50] = i[2] - i[14]; o[51] = i[3] - i[15]; o[52] = i[4] - i[16]; o[53] = i[5] - i[17]; o[54] = i[6] - i[18]; o[55] = i[7] - i[19]; o[56] = i[8] - i[20]; o[57] = i[9] - i[21]; o[58] = i[10] - i[22]; o[59] = i[11] - i[23];o[60] = i[0] - i[12]; o[61] = i[1] - i[13]; o[62] = i[2] - i[14]; o[63] = i[3] - i[15]; o[64] = i[4] - i[16]; o[65] = i[5] - i[17]; o[66] = i[6] - i[18]; o[67] = i[7] - i[19]; o[68] = i[8] - i[20]; o[69] = i[9] - i[21]; o[70] = i[10] - i[22]; o[71] = i[11] - i[23]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix1x4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix1x4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_mul_scalar_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 24]) -> bool {
    let s = i[8]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s; o[4] = i[4] * s; o[5] = i[5] * s; o[6] = i[6] * s; o[7] = i[7] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s; o[12] = i[4] * s; o[13] = i[5] * s; o[14] = i[6] * s; o[15] = i[7] * s;o[16] = i[0] * s; o[17] = i[1] * s; o[18] = i[2] * s; o[19] = i[3] * s; o[20] = i[4] * s; o[21] = i[5] * s; o[22] = i[6] * s; o[23] = i[7] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_div_scalar_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 24]) -> bool {
    let s = i[8]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s; o[4] = i[4] / s; o[5] = i[5] / s; o[6] = i[6] / s; o[7] = i[7] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s; o[12] = i[4] / s; o[13] = i[5] / s; o[14] = i[6] / s; o[15] = i[7] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; o[20] = i[4] / s; o[21] = i[5] / s; o[22] = i[6] / s; o[23] = i[7] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_rem_scalar_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 24]) -> bool {
    let s = i[8]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s; o[4] = i[4] % s; o[5] = i[5] % s; o[6] = i[6] % s; o[7] = i[7] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s; o[12] = i[4] % s; o[13] = i[5] % s; o[14] = i[6] % s; o[15] = i[7] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; o[20] = i[4] % s; o[21] = i[5] % s; o[22] = i[6] % s; o[23] = i[7] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_add_matrix4x2_f64(i: &[f64; 16], o: &mut [f64; 48]) -> bool {
    o[0] = i[0] + i[8]; o[1] = i[1] + i[9]; o[2] = i[2] + i[10]; o[3] = i[3] + i[11]; o[4] = i[4] + i[12]; o[5] = i[5] + i[13]; o[6] = i[6] + i[14]; o[7] = i[7] + i[15];o[8] = i[0] + i[8]; o[9] = i[1] + i[9]; o[10] = i[2] + i[10]; o[11] = i[3] + i[11]; o[12] = i[4] + i[12]; o[13] = i[5] + i[13]; o[14] = i[6] + i[14]; o[15] = i[7] + i[15];o[16] = i[0] + i[8]; o[17] = i[1] + i[9]; o[18] = i[2] + i[10]; o[19] = i[3] + i[11]; o[20] = i[4] + i[12]; o[21] = i[5] + i[13]; o[22] = i[6] + i[14]; o[23] = i[7] + i[15];o[24] = i[0] + i[8]; o[25] = i[1] + i[9]; o[26] = i[2] + i[10]; o[27] = i[3] + i[11]; o[28] = i[4] + i[12]; o[29] = i[5] + i[13]; o[30] = i[6] + i[14]; o[31] = i[7] + i[15];o[32] = i[0] + i[8]; o[33] = i[1] + i[9]; o[34] = i[2] + i[10]; o[35] = i[3] + i[11]; o[36] = i[4] + i[12]; o[37] = i[5] + i[13]; o[38] = i[6] + i[14]; o[39] = i[7] + i[15];o[40] = i[0] + i[8]; o[41] = i[1] + i[9]; o[42] = i[2] + i[10]; o[43] = i[3] + i[11]; o[44] = i[4] + i[12]; o[45] = i[5] + i[13]; o[46] = i[6] + i[14]; o[47] = i[7] + i[15]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_sub_matrix4x2_f64(i: &[f64; 16], o: &mut [f64; 48]) -> bool {
    o[0] = i[0] - i[8]; o[1] = i[1] - i[9]; o[2] = i[2] - i[10]; o[3] = i[3] - i[11]; o[4] = i[4] - i[12]; o[5] = i[5] - i[13]; o[6] = i[6] - i[14]; o[7] = i[7] - i[15];o[8] = i[0] - i[8]; o[9] = i[1] - i[9]; o[10] = i[2] - i[10]; o[11] = i[3] - i[11]; o[12] = i[4] - i[12]; o[13] = i[5] - i[13]; o[14] = i[6] - i[14]; o[15] = i[7] - i[15];o[16] = i[0] - i[8]; o[17] = i[1] - i[9]; o[18] = i[2] - i[10]; o[19] = i[3] - i[11]; o[20] = i[4] - i[12]; o[21] = i[5] - i[13]; o[22] = i[6] - i[14]; o[23] = i[7] - i[15];o[24] = i[0] - i[8]; o[25] = i[1] - i[9]; o[26] = i[2] - i[10]; o[27] = i[3] - i[11]; o[28] = i[4] - i[12]; o[29] = i[5] - i[13]; o[30] = i[6] - i[14]; o[31] = i[7] - i[15];o[32] = i[0] - i[8]; o[33] = i[1] - i[9]; o[34] = i[2] - i[10]; o[35] = i[3] - i[11]; o[36] = i[4] - i[12]; o[37] = i[5] - i[13]; o[38] = i[6] - i[14]; o[39] = i[7] - i[15];o[40] = i[0] - i[8]; o[41] = i[1] - i[9]; o[42] = i[2] - i[10]; o[43] = i[3] - i[11]; o[44] = i[4] - i[12]; o[45] = i[5] - i[13]; o[46] = i[6] - i[14]; o[47] = i[7] - i[15]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_mul_scalar_quaternion_f64(i: &[f64; 5], o: &mut [f64; 20]) -> bool {
    let s = i[4]; o[0] = i[0] * s; o[1] = i[1] * s; o[2] = i[2] * s; o[3] = i[3] * s;o[4] = i[0] * s; o[5] = i[1] * s; o[6] = i[2] * s; o[7] = i[3] * s;o[8] = i[0] * s; o[9] = i[1] * s; o[10] = i[2] * s; o[11] = i[3] * s;o[12] = i[0] * s; o[13] = i[1] * s; o[14] = i[2] * s; o[15] = i[3] * s;o[16] = i[0] * s; o[17] = i[1] * s; o[18] = i[2] * s; o[19] = i[3] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_div_scalar_quaternion_f64(i: &[f64; 5], o: &mut [f64; 20]) -> bool {
    let s = i[4]; o[0] = i[0] / s; o[1] = i[1] / s; o[2] = i[2] / s; o[3] = i[3] / s;o[4] = i[0] / s; o[5] = i[1] / s; o[6] = i[2] / s; o[7] = i[3] / s;o[8] = i[0] / s; o[9] = i[1] / s; o[10] = i[2] / s; o[11] = i[3] / s;o[12] = i[0] / s; o[13] = i[1] / s; o[14] = i[2] / s; o[15] = i[3] / s;o[16] = i[0] / s; o[17] = i[1] / s; o[18] = i[2] / s; o[19] = i[3] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_rem_scalar_quaternion_f64(i: &[f64; 5], o: &mut [f64; 20]) -> bool {
    let s = i[4]; o[0] = i[0] % s; o[1] = i[1] % s; o[2] = i[2] % s; o[3] = i[3] % s;o[4] = i[0] % s; o[5] = i[1] % s; o[6] = i[2] % s; o[7] = i[3] % s;o[8] = i[0] % s; o[9] = i[1] % s; o[10] = i[2] % s; o[11] = i[3] % s;o[12] = i[0] % s; o[13] = i[1] % s; o[14] = i[2] % s; o[15] = i[3] % s;o[16] = i[0] % s; o[17] = i[1] % s; o[18] = i[2] % s; o[19] = i[3] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_add_quaternion_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] + i[4]; o[1] = i[1] + i[5]; o[2] = i[2] + i[6]; o[3] = i[3] + i[7];o[4] = i[0] + i[4]; o[5] = i[1] + i[5]; o[6] = i[2] + i[6]; o[7] = i[3] + i[7];o[8] = i[0] + i[4]; o[9] = i[1] + i[5]; o[10] = i[2] + i[6]; o[11] = i[3] + i[7];o[12] = i[0] + i[4]; o[13] = i[1] + i[5]; o[14] = i[2] + i[6]; o[15] = i[3] + i[7];o[16] = i[0] + i[4]; o[17] = i[1] + i[5]; o[18] = i[2] + i[6]; o[19] = i[3] + i[7];o[20] = i[0] + i[4]; o[21] = i[1] + i[5]; o[22] = i[2] + i[6]; o[23] = i[3] + i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_sub_quaternion_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    o[0] = i[0] - i[4]; o[1] = i[1] - i[5]; o[2] = i[2] - i[6]; o[3] = i[3] - i[7];o[4] = i[0] - i[4]; o[5] = i[1] - i[5]; o[6] = i[2] - i[6]; o[7] = i[3] - i[7];o[8] = i[0] - i[4]; o[9] = i[1] - i[5]; o[10] = i[2] - i[6]; o[11] = i[3] - i[7];o[12] = i[0] - i[4]; o[13] = i[1] - i[5]; o[14] = i[2] - i[6]; o[15] = i[3] - i[7];o[16] = i[0] - i[4]; o[17] = i[1] - i[5]; o[18] = i[2] - i[6]; o[19] = i[3] - i[7];o[20] = i[0] - i[4]; o[21] = i[1] - i[5]; o[22] = i[2] - i[6]; o[23] = i[3] - i[7]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_mul_scalar_complex_f64(i: &[f64; 3], o: &mut [f64; 10]) -> bool {
    let s = i[2]; o[0] = i[0] * s; o[1] = i[1] * s;o[2] = i[0] * s; o[3] = i[1] * s;o[4] = i[0] * s; o[5] = i[1] * s;o[6] = i[0] * s; o[7] = i[1] * s;o[8] = i[0] * s; o[9] = i[1] * s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_scalar_complex_f64(i: &[f64; 3], o: &mut [f64; 10]) -> bool {
    let s = i[2]; o[0] = i[0] / s; o[1] = i[1] / s;o[2] = i[0] / s; o[3] = i[1] / s;o[4] = i[0] / s; o[5] = i[1] / s;o[6] = i[0] / s; o[7] = i[1] / s;o[8] = i[0] / s; o[9] = i[1] / s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_rem_scalar_complex_f64(i: &[f64; 3], o: &mut [f64; 10]) -> bool {
    let s = i[2]; o[0] = i[0] % s; o[1] = i[1] % s;o[2] = i[0] % s; o[3] = i[1] % s;o[4] = i[0] % s; o[5] = i[1] % s;o[6] = i[0] % s; o[7] = i[1] % s;o[8] = i[0] % s; o[9] = i[1] % s; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_add_complex_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] + i[2]; o[1] = i[1] + i[3];o[2] = i[0] + i[2]; o[3] = i[1] + i[3];o[4] = i[0] + i[2]; o[5] = i[1] + i[3];o[6] = i[0] + i[2]; o[7] = i[1] + i[3];o[8] = i[0] + i[2]; o[9] = i[1] + i[3];o[10] = i[0] + i[2]; o[11] = i[1] + i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_sub_complex_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = i[0] - i[2]; o[1] = i[1] - i[3];o[2] = i[0] - i[2]; o[3] = i[1] - i[3];o[4] = i[0] - i[2]; o[5] = i[1] - i[3];o[6] = i[0] - i[2]; o[7] = i[1] - i[3];o[8] = i[0] - i[2]; o[9] = i[1] - i[3];o[10] = i[0] - i[2]; o[11] = i[1] - i[3]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_div_complex_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let d = (i[2] * i[2]) + i[3] * i[3];o[0] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[1] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[2] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[3] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[4] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[5] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[6] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[7] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[8] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[9] = ((i[1] * i[2]) - i[0] * i[3]) / d;o[10] = ((i[0] * i[2]) + i[1] * i[3]) / d; o[11] = ((i[1] * i[2]) - i[0] * i[3]) / d; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector1_u8(i: &[u8; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[0]);o[1] = (i[0]).wrapping_mul(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1])));o[1] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1]))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point1_u8(i: &[u8; 1], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[0]);o[1] = (i[0]).wrapping_mul(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1])));o[1] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1]))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3]));o[1] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector2_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3]))));o[1] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3]));o[1] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point2_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3]))));o[1] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5]));o[1] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector3_u8(i: &[u8; 3], o: &mut [u8; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]));o[1] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5]))));o[1] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5]));o[1] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point3_u8(i: &[u8; 3], o: &mut [u8; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]));o[1] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5]))));o[1] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector4_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7]))));o[1] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point4_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7]))));o[1] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9]));o[1] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector5_u8(i: &[u8; 5], o: &mut [u8; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]));o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9]))));o[1] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9]));o[1] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point5_u8(i: &[u8; 5], o: &mut [u8; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]));o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9]))));o[1] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15]));o[1] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector8_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7]));o[1] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    o[0] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15]))));o[1] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15]));o[1] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point8_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7]));o[1] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    o[0] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15]))));o[1] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_cross_u8(i: &[u8; 9], o: &mut [u8; 3]) -> bool {
    o[0] = ((i[1]).wrapping_mul(i[5])).wrapping_sub((i[2]).wrapping_mul(i[4])); o[1] = ((i[2]).wrapping_mul(i[3])).wrapping_sub((i[0]).wrapping_mul(i[5])); o[2] = ((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_triple_u8(i: &[u8; 9], o: &mut [u8; 3]) -> bool {
    o[0] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6]))));o[1] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6]))));o[2] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_1_1_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]);o[2] = (i[0]).wrapping_mul(i[1]);o[3] = (i[0]).wrapping_mul(i[1]);o[4] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]);o[2] = (i[0]).wrapping_mul(i[1]);o[3] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_2_2_u8(i: &[u8; 8], o: &mut [u8; 20]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[1] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[2] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[3] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[4] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[5] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[6] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[7] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[8] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[9] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[10] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[11] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[12] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[13] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[14] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[15] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[16] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[17] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[18] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[19] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_2x2_u8(i: &[u8; 6], o: &mut [u8; 8]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[1] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[2] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[3] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[4] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[5] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[6] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[7] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_3_3_u8(i: &[u8; 18], o: &mut [u8; 45]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[3] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[4] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[5] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[6] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[7] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[8] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[9] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[10] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[11] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[12] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[13] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[14] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[15] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[16] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[17] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[18] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[19] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[20] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[21] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[22] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[23] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[24] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[25] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[26] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[27] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[28] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[29] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[30] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[31] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[32] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[33] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[34] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[35] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[36] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[37] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[38] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[39] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[40] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[41] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[42] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[43] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[44] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_3x3_u8(i: &[u8; 12], o: &mut [u8; 12]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[3] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[4] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[5] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[6] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[7] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[8] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[9] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[10] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[11] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_4_4_u8(i: &[u8; 32], o: &mut [u8; 80]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[4] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[5] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[6] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[7] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[8] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[9] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[10] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[11] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[12] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[13] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[14] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[15] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[16] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[17] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[18] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[19] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[20] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[21] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[22] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[23] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[24] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[25] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[26] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[27] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[28] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[29] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[30] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[31] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[32] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[33] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[34] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[35] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[36] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[37] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[38] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[39] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[40] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[41] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[42] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[43] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[44] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[45] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[46] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[47] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[48] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[49] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[50] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[51] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[52] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[53] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[54] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[55] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[56] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[57] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[58] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[59] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[60] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[61] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[62] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[63] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[64] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[65] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[66] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[67] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[68] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[69] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[70] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[71] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[72] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[73] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[74] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[75] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[76] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[77] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[78] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[79] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_4x4_u8(i: &[u8; 20], o: &mut [u8; 16]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[4] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[5] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[6] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[7] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[8] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[9] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[10] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[11] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[12] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[13] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[14] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[15] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_3_2_u8(i: &[u8; 12], o: &mut [u8; 20]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[1] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[2] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[3] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[4] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[5] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[6] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[7] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[8] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[9] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[10] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[11] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[12] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[13] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[14] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[15] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[16] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[17] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[18] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[19] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_2_3_u8(i: &[u8; 12], o: &mut [u8; 45]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[1] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[2] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[3] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[4] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[5] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[6] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[7] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[8] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[9] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[10] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[11] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[12] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[13] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[14] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[15] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[16] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[17] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[18] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[19] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[20] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[21] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[22] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[23] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[24] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[25] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[26] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[27] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[28] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[29] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[30] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[31] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[32] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[33] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[34] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[35] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[36] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[37] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[38] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[39] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[40] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[41] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[42] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[43] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[44] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_4_1_u8(i: &[u8; 8], o: &mut [u8; 5]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[2] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[3] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[4] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[2] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[3] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_1_4_u8(i: &[u8; 8], o: &mut [u8; 80]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[4]); o[1] = (i[1]).wrapping_mul(i[4]); o[2] = (i[2]).wrapping_mul(i[4]); o[3] = (i[3]).wrapping_mul(i[4]); o[4] = (i[0]).wrapping_mul(i[5]); o[5] = (i[1]).wrapping_mul(i[5]); o[6] = (i[2]).wrapping_mul(i[5]); o[7] = (i[3]).wrapping_mul(i[5]); o[8] = (i[0]).wrapping_mul(i[6]); o[9] = (i[1]).wrapping_mul(i[6]); o[10] = (i[2]).wrapping_mul(i[6]); o[11] = (i[3]).wrapping_mul(i[6]); o[12] = (i[0]).wrapping_mul(i[7]); o[13] = (i[1]).wrapping_mul(i[7]); o[14] = (i[2]).wrapping_mul(i[7]); o[15] = (i[3]).wrapping_mul(i[7]);o[16] = (i[0]).wrapping_mul(i[4]); o[17] = (i[1]).wrapping_mul(i[4]); o[18] = (i[2]).wrapping_mul(i[4]); o[19] = (i[3]).wrapping_mul(i[4]); o[20] = (i[0]).wrapping_mul(i[5]); o[21] = (i[1]).wrapping_mul(i[5]); o[22] = (i[2]).wrapping_mul(i[5]); o[23] = (i[3]).wrapping_mul(i[5]); o[24] = (i[0]).wrapping_mul(i[6]); o[25] = (i[1]).wrapping_mul(i[6]); o[26] = (i[2]).wrapping_mul(i[6]); o[27] = (i[3]).wrapping_mul(i[6]); o[28] = (i[0]).wrapping_mul(i[7]); o[29] = (i[1]).wrapping_mul(i[7]); o[30] = (i[2]).wrapping_mul(i[7]); o[31] = (i[3]).wrapping_mul(i[7]);o[32] = (i[0]).wrapping_mul(i[4]); o[33] = (i[1]).wrapping_mul(i[4]); o[34] = (i[2]).wrapping_mul(i[4]); o[35] = (i[3]).wrapping_mul(i[4]); o[36] = (i[0]).wrapping_mul(i[5]); o[37] = (i[1]).wrapping_mul(i[5]); o[38] = (i[2]).wrapping_mul(i[5]); o[39] = (i[3]).wrapping_mul(i[5]); o[40] = (i[0]).wrapping_mul(i[6]); o[41] = (i[1]).wrapping_mul(i[6]); o[42] = (i[2]).wrapping_mul(i[6]); o[43] = (i[3]).wrapping_mul(i[6]); o[44] = (i[0]).wrapping_mul(i[7]); o[45] = (i[1]).wrapping_mul(i[7]); o[46] = (i[2]).wrapping_mul(i[7]); o[47] = (i[3]).wrapping_mul(i[7]);o[48] = (i[0]).wrapping_mul(i[4]); o[49] = (i[1]).wrapping_mul(i[4]); o[50] = (i[2]).wrapping_mul(i[4]); o[51] = (i[3]).wrapping_mul(i[4]); o[52] = (i[0]).wrapping_mul(i[5]); o[53] = (i[1]).wrapping_mul(i[5]); o[54] = (i[2]).wrapping_mul(i[5]); o[55] = (i[3]).wrapping_mul(i[5]); o[56] = (i[0]).wrapping_mul(i[6]); o[57] = (i[1]).wrapping_mul(i[6]); o[58] = (i[2]).wrapping_mul(i[6]); o[59] = (i[3]).wrapping_mul(i[6]); o[60] = (i[0]).wrapping_mul(i[7]); o[61] = (i[1]).wrapping_mul(i[7]); o[62] = (i[2]).wrapping_mul(i[7]); o[63] = (i[3]).wrapping_mul(i[7]);o[64] = (i[0]).wrapping_mul(i[4]); o[65] = (i[1]).wrapping_mul(i[4]); o[66] = (i[2]).wrapping_mul(i[4]); o[67] = (i[3]).wrapping_mul(i[4]); o[68] = (i[0]).wrapping_mul(i[5]); o[69] = (i[1]).wrapping_mul(i[5]); o[70] = (i[2]).wrapping_mul(i[5]); o[71] = (i[3]).wrapping_mul(i[5]); o[72] = (i[0]).wrapping_mul(i[6]); o[73] = (i[1]).wrapping_mul(i[6]); o[74] = (i[2]).wrapping_mul(i[6]); o[75] = (i[3]).wrapping_mul(i[6]); o[76] = (i[0]).wrapping_mul(i[7]); o[77] = (i[1]).wrapping_mul(i[7]); o[78] = (i[2]).wrapping_mul(i[7]); o[79] = (i[3]).wrapping_mul(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_4_3_u8(i: &[u8; 20], o: &mut [u8; 30]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[3] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[4] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[5] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[6] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[7] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[8] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[9] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[10] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[11] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[12] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[13] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[14] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[15] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[16] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[17] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[18] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[19] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[20] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[21] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[22] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[23] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[24] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[25] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[26] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[27] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[28] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[29] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_3_2_u8(i: &[u8; 18], o: &mut [u8; 40]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[1] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[2] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[3] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[4] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[5] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[6] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[7] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[8] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[9] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[10] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[11] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[12] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[13] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[14] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[15] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[16] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[17] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[18] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[19] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[20] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[21] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[22] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[23] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[24] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[25] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[26] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[27] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[28] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[29] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[30] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[31] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[32] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[33] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[34] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[35] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[36] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[37] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[38] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[39] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_5_2_u8(i: &[u8; 25], o: &mut [u8; 24]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[4] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[5] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[6] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[7] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[8] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[9] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[10] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[11] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[12] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[13] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[14] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[15] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[16] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[17] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[18] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[19] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[20] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[21] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[22] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[23] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_9_2_u8(i: &[u8; 36], o: &mut [u8; 16]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[1] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[2] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[3] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[4] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[5] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[6] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[7] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[8] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[9] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[10] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[11] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[12] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[13] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[14] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[15] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_2_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[5]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[5]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_2_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_3_u8(i: &[u8; 18], o: &mut [u8; 2]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[12]))).wrapping_add((i[2]).wrapping_mul(i[15]))).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[11]))).wrapping_add((i[7]).wrapping_mul(i[14]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[1] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[12]))).wrapping_add((i[2]).wrapping_mul(i[15]))).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[11]))).wrapping_add((i[7]).wrapping_mul(i[14]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_3_u8(i: &[u8; 18], o: &mut [u8; 2]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[10]))).wrapping_add((i[2]).wrapping_mul(i[11]))).wrapping_add((i[3]).wrapping_mul(i[12]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15]))).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[1] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[10]))).wrapping_add((i[2]).wrapping_mul(i[11]))).wrapping_add((i[3]).wrapping_mul(i[12]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15]))).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_4_u8(i: &[u8; 32], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[20]))).wrapping_add((i[2]).wrapping_mul(i[24]))).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[19]))).wrapping_add((i[13]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[27]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[1] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[20]))).wrapping_add((i[2]).wrapping_mul(i[24]))).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[19]))).wrapping_add((i[13]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[27]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_4_u8(i: &[u8; 32], o: &mut [u8; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[17]))).wrapping_add((i[2]).wrapping_mul(i[18]))).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[7]).wrapping_mul(i[23]))).wrapping_add((i[8]).wrapping_mul(i[24]))).wrapping_add((i[9]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[27]))).wrapping_add((i[12]).wrapping_mul(i[28]))).wrapping_add((i[13]).wrapping_mul(i[29]))).wrapping_add((i[14]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[1] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[17]))).wrapping_add((i[2]).wrapping_mul(i[18]))).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[7]).wrapping_mul(i[23]))).wrapping_add((i[8]).wrapping_mul(i[24]))).wrapping_add((i[9]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[27]))).wrapping_add((i[12]).wrapping_mul(i[28]))).wrapping_add((i[13]).wrapping_mul(i[29]))).wrapping_add((i[14]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_product_u8(i: &[u8; 8], o: &mut [u8; 16]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[1] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[2] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[3] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[4] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[5] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[6] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[7] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[8] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[9] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[10] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[11] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[12] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[13] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[14] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[15] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squares_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[2] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[3] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_dot_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_product_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[1] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[2] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[3] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[4] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[5] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[6] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[7] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[8] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[9] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[10] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[11] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_squared_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])); o[1] = ((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]));o[2] = ((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])); o[3] = ((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_cubed_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[0])).wrapping_sub(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[1])); o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[1])).wrapping_add(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[0]));o[2] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[0])).wrapping_sub(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[1])); o[3] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[1])).wrapping_add(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_squares_u8(i: &[u8; 4], o: &mut [u8; 3]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[2] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_scale_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[2]); o[1] = (i[1]).wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_unscale_u8(i: &[u8; 3], o: &mut [u8; 2]) -> bool {
    if i[2] == 0 { return false; } o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    if false { return false; } if i[1] != 0 { o[0] = i[0] / i[1]; o[1] = 1; } else { o[1] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_2_u8(i: &[u8; 3], o: &mut [u8; 3]) -> bool {
    if false { return false; } if i[2] != 0 { o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; o[2] = 1; } else { o[2] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_3_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    if false { return false; } if i[3] != 0 { o[0] = i[0] / i[3]; o[1] = i[1] / i[3]; o[2] = i[2] / i[3]; o[3] = 1; } else { o[3] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector1_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[0]);o[1] = (i[0]).wrapping_mul(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1])));o[1] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1]))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point1_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[0]);o[1] = (i[0]).wrapping_mul(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1])));o[1] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1]))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3]));o[1] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector2_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3]))));o[1] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3]));o[1] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point2_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3]))));o[1] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5]));o[1] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector3_i32(i: &[i32; 3], o: &mut [i32; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]));o[1] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5]))));o[1] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5]));o[1] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point3_i32(i: &[i32; 3], o: &mut [i32; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]));o[1] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5]))));o[1] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector4_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7]))));o[1] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point4_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7]))));o[1] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9]));o[1] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector5_i32(i: &[i32; 5], o: &mut [i32; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]));o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9]))));o[1] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9]));o[1] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point5_i32(i: &[i32; 5], o: &mut [i32; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]));o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9]))));o[1] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15]));o[1] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector8_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7]));o[1] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    o[0] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15]))));o[1] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15]));o[1] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point8_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7]));o[1] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    o[0] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15]))));o[1] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_cross_i32(i: &[i32; 9], o: &mut [i32; 3]) -> bool {
    o[0] = ((i[1]).wrapping_mul(i[5])).wrapping_sub((i[2]).wrapping_mul(i[4])); o[1] = ((i[2]).wrapping_mul(i[3])).wrapping_sub((i[0]).wrapping_mul(i[5])); o[2] = ((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_triple_i32(i: &[i32; 9], o: &mut [i32; 3]) -> bool {
    o[0] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6]))));o[1] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6]))));o[2] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_1_1_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]);o[2] = (i[0]).wrapping_mul(i[1]);o[3] = (i[0]).wrapping_mul(i[1]);o[4] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x1_i32(i: &[i32; 2], o: &mut [i32; 4]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]);o[2] = (i[0]).wrapping_mul(i[1]);o[3] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_2_2_i32(i: &[i32; 8], o: &mut [i32; 20]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[1] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[2] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[3] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[4] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[5] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[6] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[7] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[8] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[9] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[10] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[11] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[12] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[13] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[14] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[15] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[16] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[17] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[18] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[19] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_2x2_i32(i: &[i32; 6], o: &mut [i32; 8]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[1] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[2] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[3] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[4] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[5] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[6] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[7] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_3_3_i32(i: &[i32; 18], o: &mut [i32; 45]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[3] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[4] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[5] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[6] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[7] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[8] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[9] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[10] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[11] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[12] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[13] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[14] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[15] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[16] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[17] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[18] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[19] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[20] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[21] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[22] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[23] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[24] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[25] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[26] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[27] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[28] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[29] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[30] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[31] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[32] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[33] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[34] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[35] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[36] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[37] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[38] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[39] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[40] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[41] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[42] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[43] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[44] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_3x3_i32(i: &[i32; 12], o: &mut [i32; 12]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[3] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[4] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[5] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[6] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[7] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[8] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[9] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[10] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[11] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_4_4_i32(i: &[i32; 32], o: &mut [i32; 80]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[4] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[5] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[6] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[7] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[8] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[9] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[10] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[11] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[12] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[13] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[14] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[15] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[16] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[17] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[18] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[19] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[20] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[21] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[22] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[23] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[24] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[25] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[26] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[27] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[28] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[29] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[30] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[31] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[32] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[33] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[34] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[35] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[36] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[37] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[38] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[39] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[40] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[41] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[42] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[43] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[44] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[45] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[46] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[47] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[48] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[49] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[50] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[51] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[52] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[53] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[54] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[55] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[56] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[57] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[58] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[59] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[60] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[61] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[62] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[63] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[64] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[65] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[66] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[67] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[68] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[69] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[70] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[71] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[72] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[73] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[74] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[75] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[76] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[77] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[78] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[79] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_4x4_i32(i: &[i32; 20], o: &mut [i32; 16]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[4] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[5] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[6] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[7] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[8] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[9] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[10] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[11] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[12] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[13] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[14] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[15] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_3_2_i32(i: &[i32; 12], o: &mut [i32; 20]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[1] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[2] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[3] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[4] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[5] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[6] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[7] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[8] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[9] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[10] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[11] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[12] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[13] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[14] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[15] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[16] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[17] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[18] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[19] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_2_3_i32(i: &[i32; 12], o: &mut [i32; 45]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[1] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[2] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[3] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[4] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[5] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[6] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[7] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[8] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[9] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[10] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[11] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[12] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[13] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[14] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[15] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[16] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[17] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[18] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[19] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[20] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[21] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[22] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[23] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[24] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[25] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[26] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[27] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[28] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[29] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[30] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[31] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[32] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[33] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[34] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[35] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[36] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[37] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[38] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[39] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[40] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[41] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[42] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[43] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[44] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_4_1_i32(i: &[i32; 8], o: &mut [i32; 5]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[2] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[3] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[4] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x4_i32(i: &[i32; 8], o: &mut [i32; 4]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[2] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[3] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_1_4_i32(i: &[i32; 8], o: &mut [i32; 80]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[4]); o[1] = (i[1]).wrapping_mul(i[4]); o[2] = (i[2]).wrapping_mul(i[4]); o[3] = (i[3]).wrapping_mul(i[4]); o[4] = (i[0]).wrapping_mul(i[5]); o[5] = (i[1]).wrapping_mul(i[5]); o[6] = (i[2]).wrapping_mul(i[5]); o[7] = (i[3]).wrapping_mul(i[5]); o[8] = (i[0]).wrapping_mul(i[6]); o[9] = (i[1]).wrapping_mul(i[6]); o[10] = (i[2]).wrapping_mul(i[6]); o[11] = (i[3]).wrapping_mul(i[6]); o[12] = (i[0]).wrapping_mul(i[7]); o[13] = (i[1]).wrapping_mul(i[7]); o[14] = (i[2]).wrapping_mul(i[7]); o[15] = (i[3]).wrapping_mul(i[7]);o[16] = (i[0]).wrapping_mul(i[4]); o[17] = (i[1]).wrapping_mul(i[4]); o[18] = (i[2]).wrapping_mul(i[4]); o[19] = (i[3]).wrapping_mul(i[4]); o[20] = (i[0]).wrapping_mul(i[5]); o[21] = (i[1]).wrapping_mul(i[5]); o[22] = (i[2]).wrapping_mul(i[5]); o[23] = (i[3]).wrapping_mul(i[5]); o[24] = (i[0]).wrapping_mul(i[6]); o[25] = (i[1]).wrapping_mul(i[6]); o[26] = (i[2]).wrapping_mul(i[6]); o[27] = (i[3]).wrapping_mul(i[6]); o[28] = (i[0]).wrapping_mul(i[7]); o[29] = (i[1]).wrapping_mul(i[7]); o[30] = (i[2]).wrapping_mul(i[7]); o[31] = (i[3]).wrapping_mul(i[7]);o[32] = (i[0]).wrapping_mul(i[4]); o[33] = (i[1]).wrapping_mul(i[4]); o[34] = (i[2]).wrapping_mul(i[4]); o[35] = (i[3]).wrapping_mul(i[4]); o[36] = (i[0]).wrapping_mul(i[5]); o[37] = (i[1]).wrapping_mul(i[5]); o[38] = (i[2]).wrapping_mul(i[5]); o[39] = (i[3]).wrapping_mul(i[5]); o[40] = (i[0]).wrapping_mul(i[6]); o[41] = (i[1]).wrapping_mul(i[6]); o[42] = (i[2]).wrapping_mul(i[6]); o[43] = (i[3]).wrapping_mul(i[6]); o[44] = (i[0]).wrapping_mul(i[7]); o[45] = (i[1]).wrapping_mul(i[7]); o[46] = (i[2]).wrapping_mul(i[7]); o[47] = (i[3]).wrapping_mul(i[7]);o[48] = (i[0]).wrapping_mul(i[4]); o[49] = (i[1]).wrapping_mul(i[4]); o[50] = (i[2]).wrapping_mul(i[4]); o[51] = (i[3]).wrapping_mul(i[4]); o[52] = (i[0]).wrapping_mul(i[5]); o[53] = (i[1]).wrapping_mul(i[5]); o[54] = (i[2]).wrapping_mul(i[5]); o[55] = (i[3]).wrapping_mul(i[5]); o[56] = (i[0]).wrapping_mul(i[6]); o[57] = (i[1]).wrapping_mul(i[6]); o[58] = (i[2]).wrapping_mul(i[6]); o[59] = (i[3]).wrapping_mul(i[6]); o[60] = (i[0]).wrapping_mul(i[7]); o[61] = (i[1]).wrapping_mul(i[7]); o[62] = (i[2]).wrapping_mul(i[7]); o[63] = (i[3]).wrapping_mul(i[7]);o[64] = (i[0]).wrapping_mul(i[4]); o[65] = (i[1]).wrapping_mul(i[4]); o[66] = (i[2]).wrapping_mul(i[4]); o[67] = (i[3]).wrapping_mul(i[4]); o[68] = (i[0]).wrapping_mul(i[5]); o[69] = (i[1]).wrapping_mul(i[5]); o[70] = (i[2]).wrapping_mul(i[5]); o[71] = (i[3]).wrapping_mul(i[5]); o[72] = (i[0]).wrapping_mul(i[6]); o[73] = (i[1]).wrapping_mul(i[6]); o[74] = (i[2]).wrapping_mul(i[6]); o[75] = (i[3]).wrapping_mul(i[6]); o[76] = (i[0]).wrapping_mul(i[7]); o[77] = (i[1]).wrapping_mul(i[7]); o[78] = (i[2]).wrapping_mul(i[7]); o[79] = (i[3]).wrapping_mul(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_4_3_i32(i: &[i32; 20], o: &mut [i32; 30]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[3] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[4] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[5] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[6] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[7] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[8] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[9] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[10] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[11] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[12] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[13] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[14] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[15] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[16] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[17] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[18] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[19] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[20] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[21] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[22] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[23] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[24] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[25] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[26] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[27] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[28] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[29] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_3_2_i32(i: &[i32; 18], o: &mut [i32; 40]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[1] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[2] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[3] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[4] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[5] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[6] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[7] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[8] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[9] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[10] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[11] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[12] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[13] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[14] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[15] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[16] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[17] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[18] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[19] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[20] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[21] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[22] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[23] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[24] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[25] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[26] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[27] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[28] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[29] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[30] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[31] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[32] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[33] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[34] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[35] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[36] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[37] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[38] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[39] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_5_2_i32(i: &[i32; 25], o: &mut [i32; 24]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[4] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[5] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[6] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[7] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[8] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[9] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[10] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[11] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[12] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[13] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[14] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[15] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[16] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[17] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[18] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[19] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[20] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[21] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[22] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[23] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_9_2_i32(i: &[i32; 36], o: &mut [i32; 16]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[1] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[2] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[3] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[4] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[5] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[6] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[7] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[8] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[9] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[10] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[11] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[12] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[13] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[14] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[15] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_1_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    o[0] = i[0];o[1] = i[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_2_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[5]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[5]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_2_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[3])).wrapping_sub((i[1]).wrapping_mul(i[2]));o[1] = ((i[0]).wrapping_mul(i[3])).wrapping_sub((i[1]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_3_i32(i: &[i32; 18], o: &mut [i32; 2]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[12]))).wrapping_add((i[2]).wrapping_mul(i[15]))).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[11]))).wrapping_add((i[7]).wrapping_mul(i[14]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[1] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[12]))).wrapping_add((i[2]).wrapping_mul(i[15]))).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[11]))).wrapping_add((i[7]).wrapping_mul(i[14]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_3_i32(i: &[i32; 18], o: &mut [i32; 2]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[10]))).wrapping_add((i[2]).wrapping_mul(i[11]))).wrapping_add((i[3]).wrapping_mul(i[12]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15]))).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[1] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[10]))).wrapping_add((i[2]).wrapping_mul(i[11]))).wrapping_add((i[3]).wrapping_mul(i[12]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15]))).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_3_i32(i: &[i32; 9], o: &mut [i32; 2]) -> bool {
    o[0] = (((((((i[1]).wrapping_mul(i[5])).wrapping_mul(i[6])).wrapping_add(((i[2]).wrapping_mul(i[3])).wrapping_mul(i[7]))).wrapping_add(((i[0]).wrapping_mul(i[4])).wrapping_mul(i[8]))).wrapping_sub(((i[2]).wrapping_mul(i[4])).wrapping_mul(i[6]))).wrapping_sub(((i[1]).wrapping_mul(i[3])).wrapping_mul(i[8]))).wrapping_sub(((i[0]).wrapping_mul(i[5])).wrapping_mul(i[7]));o[1] = (((((((i[1]).wrapping_mul(i[5])).wrapping_mul(i[6])).wrapping_add(((i[2]).wrapping_mul(i[3])).wrapping_mul(i[7]))).wrapping_add(((i[0]).wrapping_mul(i[4])).wrapping_mul(i[8]))).wrapping_sub(((i[2]).wrapping_mul(i[4])).wrapping_mul(i[6]))).wrapping_sub(((i[1]).wrapping_mul(i[3])).wrapping_mul(i[8]))).wrapping_sub(((i[0]).wrapping_mul(i[5])).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_4_i32(i: &[i32; 32], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[20]))).wrapping_add((i[2]).wrapping_mul(i[24]))).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[19]))).wrapping_add((i[13]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[27]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[1] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[20]))).wrapping_add((i[2]).wrapping_mul(i[24]))).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[19]))).wrapping_add((i[13]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[27]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_4_i32(i: &[i32; 32], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[17]))).wrapping_add((i[2]).wrapping_mul(i[18]))).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[7]).wrapping_mul(i[23]))).wrapping_add((i[8]).wrapping_mul(i[24]))).wrapping_add((i[9]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[27]))).wrapping_add((i[12]).wrapping_mul(i[28]))).wrapping_add((i[13]).wrapping_mul(i[29]))).wrapping_add((i[14]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[1] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[17]))).wrapping_add((i[2]).wrapping_mul(i[18]))).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[7]).wrapping_mul(i[23]))).wrapping_add((i[8]).wrapping_mul(i[24]))).wrapping_add((i[9]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[27]))).wrapping_add((i[12]).wrapping_mul(i[28]))).wrapping_add((i[13]).wrapping_mul(i[29]))).wrapping_add((i[14]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_4_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    o[0] = ((((((((((((((((((((((((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[12])).wrapping_add((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_add((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[14]))).wrapping_add((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_add((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_add((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[12]))).wrapping_sub((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_sub((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_sub((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_sub((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[14]));o[1] = ((((((((((((((((((((((((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[12])).wrapping_add((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_add((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[14]))).wrapping_add((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_add((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_add((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[12]))).wrapping_sub((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_sub((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_sub((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_sub((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[14])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_product_i32(i: &[i32; 8], o: &mut [i32; 16]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[1] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[2] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[3] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[4] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[5] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[6] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[7] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[8] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[9] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[10] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[11] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[12] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[13] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[14] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[15] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squares_i32(i: &[i32; 8], o: &mut [i32; 4]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[2] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[3] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_dot_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squared_i32(i: &[i32; 8], o: &mut [i32; 8]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1]))).wrapping_sub((i[2]).wrapping_mul(i[2]))).wrapping_sub((i[3]).wrapping_mul(i[3])); o[1] = ((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]))).wrapping_add((i[2]).wrapping_mul(i[3]))).wrapping_sub((i[3]).wrapping_mul(i[2])); o[2] = ((((i[0]).wrapping_mul(i[2])).wrapping_add((i[2]).wrapping_mul(i[0]))).wrapping_add((i[3]).wrapping_mul(i[1]))).wrapping_sub((i[1]).wrapping_mul(i[3])); o[3] = ((((i[0]).wrapping_mul(i[3])).wrapping_add((i[3]).wrapping_mul(i[0]))).wrapping_add((i[1]).wrapping_mul(i[2]))).wrapping_sub((i[2]).wrapping_mul(i[1]));o[4] = ((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1]))).wrapping_sub((i[2]).wrapping_mul(i[2]))).wrapping_sub((i[3]).wrapping_mul(i[3])); o[5] = ((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]))).wrapping_add((i[2]).wrapping_mul(i[3]))).wrapping_sub((i[3]).wrapping_mul(i[2])); o[6] = ((((i[0]).wrapping_mul(i[2])).wrapping_add((i[2]).wrapping_mul(i[0]))).wrapping_add((i[3]).wrapping_mul(i[1]))).wrapping_sub((i[1]).wrapping_mul(i[3])); o[7] = ((((i[0]).wrapping_mul(i[3])).wrapping_add((i[3]).wrapping_mul(i[0]))).wrapping_add((i[1]).wrapping_mul(i[2]))).wrapping_sub((i[2]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_conjugate_i32(i: &[i32; 8], o: &mut [i32; 8]) -> bool {
    o[0] = i[0]; o[1] = i[1].wrapping_neg(); o[2] = i[2].wrapping_neg(); o[3] = i[3].wrapping_neg();o[4] = i[0]; o[5] = i[1].wrapping_neg(); o[6] = i[2].wrapping_neg(); o[7] = i[3].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_product_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[1] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[2] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[3] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[4] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[5] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[6] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[7] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[8] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[9] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[10] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[11] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_squared_i32(i: &[i32; 4], o: &mut [i32; 4]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])); o[1] = ((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]));o[2] = ((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])); o[3] = ((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_cubed_i32(i: &[i32; 4], o: &mut [i32; 4]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[0])).wrapping_sub(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[1])); o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[1])).wrapping_add(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[0]));o[2] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[0])).wrapping_sub(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[1])); o[3] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[1])).wrapping_add(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_squares_i32(i: &[i32; 4], o: &mut [i32; 3]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[2] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_scale_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[2]); o[1] = (i[1]).wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_unscale_i32(i: &[i32; 3], o: &mut [i32; 2]) -> bool {
    if i[2] == 0 || i[2] == -1 { return false; } o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    if i[1] == -1 { return false; } if i[1] != 0 { o[0] = i[0] / i[1]; o[1] = 1; } else { o[1] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_2_i32(i: &[i32; 3], o: &mut [i32; 3]) -> bool {
    if i[2] == -1 { return false; } if i[2] != 0 { o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; o[2] = 1; } else { o[2] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_3_i32(i: &[i32; 4], o: &mut [i32; 4]) -> bool {
    if i[3] == -1 { return false; } if i[3] != 0 { o[0] = i[0] / i[3]; o[1] = i[1] / i[3]; o[2] = i[2] / i[3]; o[3] = 1; } else { o[3] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector1_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[0]);o[1] = (i[0]).wrapping_mul(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1])));o[1] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1]))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point1_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[0]);o[1] = (i[0]).wrapping_mul(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1])));o[1] = ((i[0].wrapping_sub(i[1]))).wrapping_mul((i[0].wrapping_sub(i[1]))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3]));o[1] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector2_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3]))));o[1] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3]));o[1] = ((i[0]).wrapping_mul(i[2])).wrapping_add((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point2_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3]))));o[1] = (((i[0].wrapping_sub(i[2]))).wrapping_mul((i[0].wrapping_sub(i[2])))).wrapping_add(((i[1].wrapping_sub(i[3]))).wrapping_mul((i[1].wrapping_sub(i[3])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5]));o[1] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector3_i64(i: &[i64; 3], o: &mut [i64; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]));o[1] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5]))));o[1] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5]));o[1] = (((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point3_i64(i: &[i64; 3], o: &mut [i64; 2]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]));o[1] = (((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5]))));o[1] = ((((i[0].wrapping_sub(i[3]))).wrapping_mul((i[0].wrapping_sub(i[3])))).wrapping_add(((i[1].wrapping_sub(i[4]))).wrapping_mul((i[1].wrapping_sub(i[4]))))).wrapping_add(((i[2].wrapping_sub(i[5]))).wrapping_mul((i[2].wrapping_sub(i[5])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector4_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7]))));o[1] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point4_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7]))));o[1] = (((((i[0].wrapping_sub(i[4]))).wrapping_mul((i[0].wrapping_sub(i[4])))).wrapping_add(((i[1].wrapping_sub(i[5]))).wrapping_mul((i[1].wrapping_sub(i[5]))))).wrapping_add(((i[2].wrapping_sub(i[6]))).wrapping_mul((i[2].wrapping_sub(i[6]))))).wrapping_add(((i[3].wrapping_sub(i[7]))).wrapping_mul((i[3].wrapping_sub(i[7])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9]));o[1] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector5_i64(i: &[i64; 5], o: &mut [i64; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]));o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9]))));o[1] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9]));o[1] = (((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[3]).wrapping_mul(i[8]))).wrapping_add((i[4]).wrapping_mul(i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point5_i64(i: &[i64; 5], o: &mut [i64; 2]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]));o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9]))));o[1] = ((((((i[0].wrapping_sub(i[5]))).wrapping_mul((i[0].wrapping_sub(i[5])))).wrapping_add(((i[1].wrapping_sub(i[6]))).wrapping_mul((i[1].wrapping_sub(i[6]))))).wrapping_add(((i[2].wrapping_sub(i[7]))).wrapping_mul((i[2].wrapping_sub(i[7]))))).wrapping_add(((i[3].wrapping_sub(i[8]))).wrapping_mul((i[3].wrapping_sub(i[8]))))).wrapping_add(((i[4].wrapping_sub(i[9]))).wrapping_mul((i[4].wrapping_sub(i[9])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15]));o[1] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector8_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7]));o[1] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    o[0] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15]))));o[1] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15]));o[1] = ((((((((i[0]).wrapping_mul(i[8])).wrapping_add((i[1]).wrapping_mul(i[9]))).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[3]).wrapping_mul(i[11]))).wrapping_add((i[4]).wrapping_mul(i[12]))).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point8_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7]));o[1] = ((((((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]))).wrapping_add((i[4]).wrapping_mul(i[4]))).wrapping_add((i[5]).wrapping_mul(i[5]))).wrapping_add((i[6]).wrapping_mul(i[6]))).wrapping_add((i[7]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    o[0] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15]))));o[1] = (((((((((i[0].wrapping_sub(i[8]))).wrapping_mul((i[0].wrapping_sub(i[8])))).wrapping_add(((i[1].wrapping_sub(i[9]))).wrapping_mul((i[1].wrapping_sub(i[9]))))).wrapping_add(((i[2].wrapping_sub(i[10]))).wrapping_mul((i[2].wrapping_sub(i[10]))))).wrapping_add(((i[3].wrapping_sub(i[11]))).wrapping_mul((i[3].wrapping_sub(i[11]))))).wrapping_add(((i[4].wrapping_sub(i[12]))).wrapping_mul((i[4].wrapping_sub(i[12]))))).wrapping_add(((i[5].wrapping_sub(i[13]))).wrapping_mul((i[5].wrapping_sub(i[13]))))).wrapping_add(((i[6].wrapping_sub(i[14]))).wrapping_mul((i[6].wrapping_sub(i[14]))))).wrapping_add(((i[7].wrapping_sub(i[15]))).wrapping_mul((i[7].wrapping_sub(i[15])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_cross_i64(i: &[i64; 9], o: &mut [i64; 3]) -> bool {
    o[0] = ((i[1]).wrapping_mul(i[5])).wrapping_sub((i[2]).wrapping_mul(i[4])); o[1] = ((i[2]).wrapping_mul(i[3])).wrapping_sub((i[0]).wrapping_mul(i[5])); o[2] = ((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_triple_i64(i: &[i64; 9], o: &mut [i64; 3]) -> bool {
    o[0] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6]))));o[1] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6]))));o[2] = (((i[0]).wrapping_mul(((i[4]).wrapping_mul(i[8])).wrapping_sub((i[5]).wrapping_mul(i[7])))).wrapping_add((i[1]).wrapping_mul(((i[5]).wrapping_mul(i[6])).wrapping_sub((i[3]).wrapping_mul(i[8]))))).wrapping_add((i[2]).wrapping_mul(((i[3]).wrapping_mul(i[7])).wrapping_sub((i[4]).wrapping_mul(i[6])))); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_1_1_i64(i: &[i64; 2], o: &mut [i64; 5]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]);o[2] = (i[0]).wrapping_mul(i[1]);o[3] = (i[0]).wrapping_mul(i[1]);o[4] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x1_i64(i: &[i64; 2], o: &mut [i64; 4]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]);o[2] = (i[0]).wrapping_mul(i[1]);o[3] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_2_2_i64(i: &[i64; 8], o: &mut [i64; 20]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[1] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[2] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[3] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[4] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[5] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[6] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[7] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[8] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[9] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[10] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[11] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[12] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[13] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[14] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[15] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]));o[16] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[17] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); o[18] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7])); o[19] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_2x2_i64(i: &[i64; 6], o: &mut [i64; 8]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[1] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[2] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[3] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[4] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[5] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5]));o[6] = ((i[0]).wrapping_mul(i[4])).wrapping_add((i[2]).wrapping_mul(i[5])); o[7] = ((i[1]).wrapping_mul(i[4])).wrapping_add((i[3]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_3_3_i64(i: &[i64; 18], o: &mut [i64; 45]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[3] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[4] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[5] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[6] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[7] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[8] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[9] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[10] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[11] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[12] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[13] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[14] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[15] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[16] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[17] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[18] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[19] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[20] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[21] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[22] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[23] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[24] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[25] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[26] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[27] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[28] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[29] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[30] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[31] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[32] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[33] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[34] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[35] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[36] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[37] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[38] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); o[39] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[6]).wrapping_mul(i[14])); o[40] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[7]).wrapping_mul(i[14])); o[41] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[42] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17])); o[43] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17])); o[44] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_3x3_i64(i: &[i64; 12], o: &mut [i64; 12]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[3] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[4] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[5] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[6] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[7] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[8] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11]));o[9] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[10] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[11] = (((i[2]).wrapping_mul(i[9])).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[8]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_4_4_i64(i: &[i64; 32], o: &mut [i64; 80]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[4] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[5] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[6] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[7] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[8] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[9] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[10] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[11] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[12] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[13] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[14] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[15] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[16] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[17] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[18] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[19] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[20] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[21] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[22] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[23] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[24] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[25] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[26] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[27] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[28] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[29] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[30] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[31] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[32] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[33] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[34] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[35] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[36] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[37] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[38] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[39] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[40] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[41] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[42] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[43] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[44] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[45] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[46] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[47] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[48] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[49] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[50] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[51] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[52] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[53] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[54] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[55] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[56] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[57] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[58] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[59] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[60] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[61] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[62] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[63] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[64] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[65] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[66] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[67] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); o[68] = ((((i[0]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[12]).wrapping_mul(i[23])); o[69] = ((((i[1]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[13]).wrapping_mul(i[23])); o[70] = ((((i[2]).wrapping_mul(i[20])).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[10]).wrapping_mul(i[22]))).wrapping_add((i[14]).wrapping_mul(i[23])); o[71] = ((((i[3]).wrapping_mul(i[20])).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[11]).wrapping_mul(i[22]))).wrapping_add((i[15]).wrapping_mul(i[23])); o[72] = ((((i[0]).wrapping_mul(i[24])).wrapping_add((i[4]).wrapping_mul(i[25]))).wrapping_add((i[8]).wrapping_mul(i[26]))).wrapping_add((i[12]).wrapping_mul(i[27])); o[73] = ((((i[1]).wrapping_mul(i[24])).wrapping_add((i[5]).wrapping_mul(i[25]))).wrapping_add((i[9]).wrapping_mul(i[26]))).wrapping_add((i[13]).wrapping_mul(i[27])); o[74] = ((((i[2]).wrapping_mul(i[24])).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[14]).wrapping_mul(i[27])); o[75] = ((((i[3]).wrapping_mul(i[24])).wrapping_add((i[7]).wrapping_mul(i[25]))).wrapping_add((i[11]).wrapping_mul(i[26]))).wrapping_add((i[15]).wrapping_mul(i[27])); o[76] = ((((i[0]).wrapping_mul(i[28])).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[31])); o[77] = ((((i[1]).wrapping_mul(i[28])).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[9]).wrapping_mul(i[30]))).wrapping_add((i[13]).wrapping_mul(i[31])); o[78] = ((((i[2]).wrapping_mul(i[28])).wrapping_add((i[6]).wrapping_mul(i[29]))).wrapping_add((i[10]).wrapping_mul(i[30]))).wrapping_add((i[14]).wrapping_mul(i[31])); o[79] = ((((i[3]).wrapping_mul(i[28])).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_4x4_i64(i: &[i64; 20], o: &mut [i64; 16]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[4] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[5] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[6] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[7] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[8] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[9] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[10] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[11] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19]));o[12] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[13] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[5]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[14] = ((((i[2]).wrapping_mul(i[16])).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[15] = ((((i[3]).wrapping_mul(i[16])).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[15]).wrapping_mul(i[19])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_3_2_i64(i: &[i64; 12], o: &mut [i64; 20]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[1] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[2] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[3] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[4] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[5] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[6] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[7] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[8] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[9] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[10] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[11] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[12] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[13] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[14] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[15] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11]));o[16] = (((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_add((i[4]).wrapping_mul(i[8])); o[17] = (((i[1]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7]))).wrapping_add((i[5]).wrapping_mul(i[8])); o[18] = (((i[0]).wrapping_mul(i[9])).wrapping_add((i[2]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[11])); o[19] = (((i[1]).wrapping_mul(i[9])).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[5]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_2_3_i64(i: &[i64; 12], o: &mut [i64; 45]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[1] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[2] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[3] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[4] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[5] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[6] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[7] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[8] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[9] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[10] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[11] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[12] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[13] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[14] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[15] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[16] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[17] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[18] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[19] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[20] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[21] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[22] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[23] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[24] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[25] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[26] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[27] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[28] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[29] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[30] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[31] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[32] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[33] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[34] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[35] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11]));o[36] = ((i[0]).wrapping_mul(i[6])).wrapping_add((i[3]).wrapping_mul(i[7])); o[37] = ((i[1]).wrapping_mul(i[6])).wrapping_add((i[4]).wrapping_mul(i[7])); o[38] = ((i[2]).wrapping_mul(i[6])).wrapping_add((i[5]).wrapping_mul(i[7])); o[39] = ((i[0]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9])); o[40] = ((i[1]).wrapping_mul(i[8])).wrapping_add((i[4]).wrapping_mul(i[9])); o[41] = ((i[2]).wrapping_mul(i[8])).wrapping_add((i[5]).wrapping_mul(i[9])); o[42] = ((i[0]).wrapping_mul(i[10])).wrapping_add((i[3]).wrapping_mul(i[11])); o[43] = ((i[1]).wrapping_mul(i[10])).wrapping_add((i[4]).wrapping_mul(i[11])); o[44] = ((i[2]).wrapping_mul(i[10])).wrapping_add((i[5]).wrapping_mul(i[11])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_4_1_i64(i: &[i64; 8], o: &mut [i64; 5]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[2] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[3] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[4] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x4_i64(i: &[i64; 8], o: &mut [i64; 4]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[2] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[3] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_1_4_i64(i: &[i64; 8], o: &mut [i64; 80]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[4]); o[1] = (i[1]).wrapping_mul(i[4]); o[2] = (i[2]).wrapping_mul(i[4]); o[3] = (i[3]).wrapping_mul(i[4]); o[4] = (i[0]).wrapping_mul(i[5]); o[5] = (i[1]).wrapping_mul(i[5]); o[6] = (i[2]).wrapping_mul(i[5]); o[7] = (i[3]).wrapping_mul(i[5]); o[8] = (i[0]).wrapping_mul(i[6]); o[9] = (i[1]).wrapping_mul(i[6]); o[10] = (i[2]).wrapping_mul(i[6]); o[11] = (i[3]).wrapping_mul(i[6]); o[12] = (i[0]).wrapping_mul(i[7]); o[13] = (i[1]).wrapping_mul(i[7]); o[14] = (i[2]).wrapping_mul(i[7]); o[15] = (i[3]).wrapping_mul(i[7]);o[16] = (i[0]).wrapping_mul(i[4]); o[17] = (i[1]).wrapping_mul(i[4]); o[18] = (i[2]).wrapping_mul(i[4]); o[19] = (i[3]).wrapping_mul(i[4]); o[20] = (i[0]).wrapping_mul(i[5]); o[21] = (i[1]).wrapping_mul(i[5]); o[22] = (i[2]).wrapping_mul(i[5]); o[23] = (i[3]).wrapping_mul(i[5]); o[24] = (i[0]).wrapping_mul(i[6]); o[25] = (i[1]).wrapping_mul(i[6]); o[26] = (i[2]).wrapping_mul(i[6]); o[27] = (i[3]).wrapping_mul(i[6]); o[28] = (i[0]).wrapping_mul(i[7]); o[29] = (i[1]).wrapping_mul(i[7]); o[30] = (i[2]).wrapping_mul(i[7]); o[31] = (i[3]).wrapping_mul(i[7]);o[32] = (i[0]).wrapping_mul(i[4]); o[33] = (i[1]).wrapping_mul(i[4]); o[34] = (i[2]).wrapping_mul(i[4]); o[35] = (i[3]).wrapping_mul(i[4]); o[36] = (i[0]).wrapping_mul(i[5]); o[37] = (i[1]).wrapping_mul(i[5]); o[38] = (i[2]).wrapping_mul(i[5]); o[39] = (i[3]).wrapping_mul(i[5]); o[40] = (i[0]).wrapping_mul(i[6]); o[41] = (i[1]).wrapping_mul(i[6]); o[42] = (i[2]).wrapping_mul(i[6]); o[43] = (i[3]).wrapping_mul(i[6]); o[44] = (i[0]).wrapping_mul(i[7]); o[45] = (i[1]).wrapping_mul(i[7]); o[46] = (i[2]).wrapping_mul(i[7]); o[47] = (i[3]).wrapping_mul(i[7]);o[48] = (i[0]).wrapping_mul(i[4]); o[49] = (i[1]).wrapping_mul(i[4]); o[50] = (i[2]).wrapping_mul(i[4]); o[51] = (i[3]).wrapping_mul(i[4]); o[52] = (i[0]).wrapping_mul(i[5]); o[53] = (i[1]).wrapping_mul(i[5]); o[54] = (i[2]).wrapping_mul(i[5]); o[55] = (i[3]).wrapping_mul(i[5]); o[56] = (i[0]).wrapping_mul(i[6]); o[57] = (i[1]).wrapping_mul(i[6]); o[58] = (i[2]).wrapping_mul(i[6]); o[59] = (i[3]).wrapping_mul(i[6]); o[60] = (i[0]).wrapping_mul(i[7]); o[61] = (i[1]).wrapping_mul(i[7]); o[62] = (i[2]).wrapping_mul(i[7]); o[63] = (i[3]).wrapping_mul(i[7]);o[64] = (i[0]).wrapping_mul(i[4]); o[65] = (i[1]).wrapping_mul(i[4]); o[66] = (i[2]).wrapping_mul(i[4]); o[67] = (i[3]).wrapping_mul(i[4]); o[68] = (i[0]).wrapping_mul(i[5]); o[69] = (i[1]).wrapping_mul(i[5]); o[70] = (i[2]).wrapping_mul(i[5]); o[71] = (i[3]).wrapping_mul(i[5]); o[72] = (i[0]).wrapping_mul(i[6]); o[73] = (i[1]).wrapping_mul(i[6]); o[74] = (i[2]).wrapping_mul(i[6]); o[75] = (i[3]).wrapping_mul(i[6]); o[76] = (i[0]).wrapping_mul(i[7]); o[77] = (i[1]).wrapping_mul(i[7]); o[78] = (i[2]).wrapping_mul(i[7]); o[79] = (i[3]).wrapping_mul(i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_4_3_i64(i: &[i64; 20], o: &mut [i64; 30]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[1] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[2] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[3] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[4] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[5] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[6] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[7] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[8] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[9] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[10] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[11] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[12] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[13] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[14] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[15] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[16] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[17] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[18] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[19] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[20] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[21] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[22] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[23] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19]));o[24] = ((((i[0]).wrapping_mul(i[8])).wrapping_add((i[2]).wrapping_mul(i[9]))).wrapping_add((i[4]).wrapping_mul(i[10]))).wrapping_add((i[6]).wrapping_mul(i[11])); o[25] = ((((i[1]).wrapping_mul(i[8])).wrapping_add((i[3]).wrapping_mul(i[9]))).wrapping_add((i[5]).wrapping_mul(i[10]))).wrapping_add((i[7]).wrapping_mul(i[11])); o[26] = ((((i[0]).wrapping_mul(i[12])).wrapping_add((i[2]).wrapping_mul(i[13]))).wrapping_add((i[4]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15])); o[27] = ((((i[1]).wrapping_mul(i[12])).wrapping_add((i[3]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[7]).wrapping_mul(i[15])); o[28] = ((((i[0]).wrapping_mul(i[16])).wrapping_add((i[2]).wrapping_mul(i[17]))).wrapping_add((i[4]).wrapping_mul(i[18]))).wrapping_add((i[6]).wrapping_mul(i[19])); o[29] = ((((i[1]).wrapping_mul(i[16])).wrapping_add((i[3]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[18]))).wrapping_add((i[7]).wrapping_mul(i[19])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_3_2_i64(i: &[i64; 18], o: &mut [i64; 40]) -> bool {
    o[0] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[1] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[2] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[3] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[4] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[5] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[6] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[7] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[8] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[9] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[10] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[11] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[12] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[13] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[14] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[15] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[16] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[17] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[18] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[19] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[20] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[21] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[22] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[23] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[24] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[25] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[26] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[27] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[28] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[29] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[30] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[31] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17]));o[32] = (((i[0]).wrapping_mul(i[12])).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[8]).wrapping_mul(i[14])); o[33] = (((i[1]).wrapping_mul(i[12])).wrapping_add((i[5]).wrapping_mul(i[13]))).wrapping_add((i[9]).wrapping_mul(i[14])); o[34] = (((i[2]).wrapping_mul(i[12])).wrapping_add((i[6]).wrapping_mul(i[13]))).wrapping_add((i[10]).wrapping_mul(i[14])); o[35] = (((i[3]).wrapping_mul(i[12])).wrapping_add((i[7]).wrapping_mul(i[13]))).wrapping_add((i[11]).wrapping_mul(i[14])); o[36] = (((i[0]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); o[37] = (((i[1]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[9]).wrapping_mul(i[17])); o[38] = (((i[2]).wrapping_mul(i[15])).wrapping_add((i[6]).wrapping_mul(i[16]))).wrapping_add((i[10]).wrapping_mul(i[17])); o[39] = (((i[3]).wrapping_mul(i[15])).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[11]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_5_2_i64(i: &[i64; 25], o: &mut [i64; 24]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[1] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[2] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[3] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[4] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[5] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[6] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[7] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[8] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[9] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[10] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[11] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[12] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[13] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[14] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[15] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[16] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[17] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24]));o[18] = (((((i[0]).wrapping_mul(i[15])).wrapping_add((i[3]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[17]))).wrapping_add((i[9]).wrapping_mul(i[18]))).wrapping_add((i[12]).wrapping_mul(i[19])); o[19] = (((((i[1]).wrapping_mul(i[15])).wrapping_add((i[4]).wrapping_mul(i[16]))).wrapping_add((i[7]).wrapping_mul(i[17]))).wrapping_add((i[10]).wrapping_mul(i[18]))).wrapping_add((i[13]).wrapping_mul(i[19])); o[20] = (((((i[2]).wrapping_mul(i[15])).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]))).wrapping_add((i[11]).wrapping_mul(i[18]))).wrapping_add((i[14]).wrapping_mul(i[19])); o[21] = (((((i[0]).wrapping_mul(i[20])).wrapping_add((i[3]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[9]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24])); o[22] = (((((i[1]).wrapping_mul(i[20])).wrapping_add((i[4]).wrapping_mul(i[21]))).wrapping_add((i[7]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24])); o[23] = (((((i[2]).wrapping_mul(i[20])).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[24])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_9_2_i64(i: &[i64; 36], o: &mut [i64; 16]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[1] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[2] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[3] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[4] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[5] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[6] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[7] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[8] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[9] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[10] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[11] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35]));o[12] = (((((((((i[0]).wrapping_mul(i[18])).wrapping_add((i[2]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[6]).wrapping_mul(i[21]))).wrapping_add((i[8]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[23]))).wrapping_add((i[12]).wrapping_mul(i[24]))).wrapping_add((i[14]).wrapping_mul(i[25]))).wrapping_add((i[16]).wrapping_mul(i[26])); o[13] = (((((((((i[1]).wrapping_mul(i[18])).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[5]).wrapping_mul(i[20]))).wrapping_add((i[7]).wrapping_mul(i[21]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[11]).wrapping_mul(i[23]))).wrapping_add((i[13]).wrapping_mul(i[24]))).wrapping_add((i[15]).wrapping_mul(i[25]))).wrapping_add((i[17]).wrapping_mul(i[26])); o[14] = (((((((((i[0]).wrapping_mul(i[27])).wrapping_add((i[2]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[29]))).wrapping_add((i[6]).wrapping_mul(i[30]))).wrapping_add((i[8]).wrapping_mul(i[31]))).wrapping_add((i[10]).wrapping_mul(i[32]))).wrapping_add((i[12]).wrapping_mul(i[33]))).wrapping_add((i[14]).wrapping_mul(i[34]))).wrapping_add((i[16]).wrapping_mul(i[35])); o[15] = (((((((((i[1]).wrapping_mul(i[27])).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[5]).wrapping_mul(i[29]))).wrapping_add((i[7]).wrapping_mul(i[30]))).wrapping_add((i[9]).wrapping_mul(i[31]))).wrapping_add((i[11]).wrapping_mul(i[32]))).wrapping_add((i[13]).wrapping_mul(i[33]))).wrapping_add((i[15]).wrapping_mul(i[34]))).wrapping_add((i[17]).wrapping_mul(i[35])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[1]);o[1] = (i[0]).wrapping_mul(i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_1_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    o[0] = i[0];o[1] = i[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_2_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[5]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_add((i[2]).wrapping_mul(i[5]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_2_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[3])).wrapping_sub((i[1]).wrapping_mul(i[2]));o[1] = ((i[0]).wrapping_mul(i[3])).wrapping_sub((i[1]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_3_i64(i: &[i64; 18], o: &mut [i64; 2]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[12]))).wrapping_add((i[2]).wrapping_mul(i[15]))).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[11]))).wrapping_add((i[7]).wrapping_mul(i[14]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[1] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[12]))).wrapping_add((i[2]).wrapping_mul(i[15]))).wrapping_add((i[3]).wrapping_mul(i[10]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[16]))).wrapping_add((i[6]).wrapping_mul(i[11]))).wrapping_add((i[7]).wrapping_mul(i[14]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_3_i64(i: &[i64; 18], o: &mut [i64; 2]) -> bool {
    o[0] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[10]))).wrapping_add((i[2]).wrapping_mul(i[11]))).wrapping_add((i[3]).wrapping_mul(i[12]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15]))).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17]));o[1] = (((((((((i[0]).wrapping_mul(i[9])).wrapping_add((i[1]).wrapping_mul(i[10]))).wrapping_add((i[2]).wrapping_mul(i[11]))).wrapping_add((i[3]).wrapping_mul(i[12]))).wrapping_add((i[4]).wrapping_mul(i[13]))).wrapping_add((i[5]).wrapping_mul(i[14]))).wrapping_add((i[6]).wrapping_mul(i[15]))).wrapping_add((i[7]).wrapping_mul(i[16]))).wrapping_add((i[8]).wrapping_mul(i[17])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_3_i64(i: &[i64; 9], o: &mut [i64; 2]) -> bool {
    o[0] = (((((((i[1]).wrapping_mul(i[5])).wrapping_mul(i[6])).wrapping_add(((i[2]).wrapping_mul(i[3])).wrapping_mul(i[7]))).wrapping_add(((i[0]).wrapping_mul(i[4])).wrapping_mul(i[8]))).wrapping_sub(((i[2]).wrapping_mul(i[4])).wrapping_mul(i[6]))).wrapping_sub(((i[1]).wrapping_mul(i[3])).wrapping_mul(i[8]))).wrapping_sub(((i[0]).wrapping_mul(i[5])).wrapping_mul(i[7]));o[1] = (((((((i[1]).wrapping_mul(i[5])).wrapping_mul(i[6])).wrapping_add(((i[2]).wrapping_mul(i[3])).wrapping_mul(i[7]))).wrapping_add(((i[0]).wrapping_mul(i[4])).wrapping_mul(i[8]))).wrapping_sub(((i[2]).wrapping_mul(i[4])).wrapping_mul(i[6]))).wrapping_sub(((i[1]).wrapping_mul(i[3])).wrapping_mul(i[8]))).wrapping_sub(((i[0]).wrapping_mul(i[5])).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_4_i64(i: &[i64; 32], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[20]))).wrapping_add((i[2]).wrapping_mul(i[24]))).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[19]))).wrapping_add((i[13]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[27]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[1] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[20]))).wrapping_add((i[2]).wrapping_mul(i[24]))).wrapping_add((i[3]).wrapping_mul(i[28]))).wrapping_add((i[4]).wrapping_mul(i[17]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[25]))).wrapping_add((i[7]).wrapping_mul(i[29]))).wrapping_add((i[8]).wrapping_mul(i[18]))).wrapping_add((i[9]).wrapping_mul(i[22]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[30]))).wrapping_add((i[12]).wrapping_mul(i[19]))).wrapping_add((i[13]).wrapping_mul(i[23]))).wrapping_add((i[14]).wrapping_mul(i[27]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_4_i64(i: &[i64; 32], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[17]))).wrapping_add((i[2]).wrapping_mul(i[18]))).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[7]).wrapping_mul(i[23]))).wrapping_add((i[8]).wrapping_mul(i[24]))).wrapping_add((i[9]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[27]))).wrapping_add((i[12]).wrapping_mul(i[28]))).wrapping_add((i[13]).wrapping_mul(i[29]))).wrapping_add((i[14]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31]));o[1] = ((((((((((((((((i[0]).wrapping_mul(i[16])).wrapping_add((i[1]).wrapping_mul(i[17]))).wrapping_add((i[2]).wrapping_mul(i[18]))).wrapping_add((i[3]).wrapping_mul(i[19]))).wrapping_add((i[4]).wrapping_mul(i[20]))).wrapping_add((i[5]).wrapping_mul(i[21]))).wrapping_add((i[6]).wrapping_mul(i[22]))).wrapping_add((i[7]).wrapping_mul(i[23]))).wrapping_add((i[8]).wrapping_mul(i[24]))).wrapping_add((i[9]).wrapping_mul(i[25]))).wrapping_add((i[10]).wrapping_mul(i[26]))).wrapping_add((i[11]).wrapping_mul(i[27]))).wrapping_add((i[12]).wrapping_mul(i[28]))).wrapping_add((i[13]).wrapping_mul(i[29]))).wrapping_add((i[14]).wrapping_mul(i[30]))).wrapping_add((i[15]).wrapping_mul(i[31])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C05_det_4_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    o[0] = ((((((((((((((((((((((((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[12])).wrapping_add((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_add((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[14]))).wrapping_add((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_add((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_add((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[12]))).wrapping_sub((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_sub((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_sub((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_sub((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[14]));o[1] = ((((((((((((((((((((((((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[12])).wrapping_add((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_add((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_add((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[14]))).wrapping_add((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_add((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_add((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_add((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_add((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[2]).wrapping_mul(i[7])).wrapping_mul(i[9])).wrapping_mul(i[12]))).wrapping_sub((((i[2]).wrapping_mul(i[5])).wrapping_mul(i[8])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[5])).wrapping_mul(i[10])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[6])).wrapping_mul(i[11])).wrapping_mul(i[12]))).wrapping_sub((((i[1]).wrapping_mul(i[7])).wrapping_mul(i[8])).wrapping_mul(i[14]))).wrapping_sub((((i[1]).wrapping_mul(i[4])).wrapping_mul(i[10])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[6])).wrapping_mul(i[8])).wrapping_mul(i[13]))).wrapping_sub((((i[2]).wrapping_mul(i[4])).wrapping_mul(i[11])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[7])).wrapping_mul(i[10])).wrapping_mul(i[13]))).wrapping_sub((((i[0]).wrapping_mul(i[6])).wrapping_mul(i[9])).wrapping_mul(i[15]))).wrapping_sub((((i[3]).wrapping_mul(i[4])).wrapping_mul(i[9])).wrapping_mul(i[14]))).wrapping_sub((((i[0]).wrapping_mul(i[5])).wrapping_mul(i[11])).wrapping_mul(i[14])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_product_i64(i: &[i64; 8], o: &mut [i64; 16]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[1] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[2] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[3] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[4] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[5] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[6] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[7] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[8] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[9] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[10] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[11] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5]));o[12] = ((((i[0]).wrapping_mul(i[4])).wrapping_sub((i[1]).wrapping_mul(i[5]))).wrapping_sub((i[2]).wrapping_mul(i[6]))).wrapping_sub((i[3]).wrapping_mul(i[7])); o[13] = ((((i[0]).wrapping_mul(i[5])).wrapping_add((i[1]).wrapping_mul(i[4]))).wrapping_add((i[2]).wrapping_mul(i[7]))).wrapping_sub((i[3]).wrapping_mul(i[6])); o[14] = ((((i[0]).wrapping_mul(i[6])).wrapping_add((i[2]).wrapping_mul(i[4]))).wrapping_add((i[3]).wrapping_mul(i[5]))).wrapping_sub((i[1]).wrapping_mul(i[7])); o[15] = ((((i[0]).wrapping_mul(i[7])).wrapping_add((i[3]).wrapping_mul(i[4]))).wrapping_add((i[1]).wrapping_mul(i[6]))).wrapping_sub((i[2]).wrapping_mul(i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squares_i64(i: &[i64; 8], o: &mut [i64; 4]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[1] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[2] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3]));o[3] = ((((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]))).wrapping_add((i[2]).wrapping_mul(i[2]))).wrapping_add((i[3]).wrapping_mul(i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_dot_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7]));o[1] = ((((i[0]).wrapping_mul(i[4])).wrapping_add((i[1]).wrapping_mul(i[5]))).wrapping_add((i[2]).wrapping_mul(i[6]))).wrapping_add((i[3]).wrapping_mul(i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squared_i64(i: &[i64; 8], o: &mut [i64; 8]) -> bool {
    o[0] = ((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1]))).wrapping_sub((i[2]).wrapping_mul(i[2]))).wrapping_sub((i[3]).wrapping_mul(i[3])); o[1] = ((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]))).wrapping_add((i[2]).wrapping_mul(i[3]))).wrapping_sub((i[3]).wrapping_mul(i[2])); o[2] = ((((i[0]).wrapping_mul(i[2])).wrapping_add((i[2]).wrapping_mul(i[0]))).wrapping_add((i[3]).wrapping_mul(i[1]))).wrapping_sub((i[1]).wrapping_mul(i[3])); o[3] = ((((i[0]).wrapping_mul(i[3])).wrapping_add((i[3]).wrapping_mul(i[0]))).wrapping_add((i[1]).wrapping_mul(i[2]))).wrapping_sub((i[2]).wrapping_mul(i[1]));o[4] = ((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1]))).wrapping_sub((i[2]).wrapping_mul(i[2]))).wrapping_sub((i[3]).wrapping_mul(i[3])); o[5] = ((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]))).wrapping_add((i[2]).wrapping_mul(i[3]))).wrapping_sub((i[3]).wrapping_mul(i[2])); o[6] = ((((i[0]).wrapping_mul(i[2])).wrapping_add((i[2]).wrapping_mul(i[0]))).wrapping_add((i[3]).wrapping_mul(i[1]))).wrapping_sub((i[1]).wrapping_mul(i[3])); o[7] = ((((i[0]).wrapping_mul(i[3])).wrapping_add((i[3]).wrapping_mul(i[0]))).wrapping_add((i[1]).wrapping_mul(i[2]))).wrapping_sub((i[2]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_conjugate_i64(i: &[i64; 8], o: &mut [i64; 8]) -> bool {
    o[0] = i[0]; o[1] = i[1].wrapping_neg(); o[2] = i[2].wrapping_neg(); o[3] = i[3].wrapping_neg();o[4] = i[0]; o[5] = i[1].wrapping_neg(); o[6] = i[2].wrapping_neg(); o[7] = i[3].wrapping_neg(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_product_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[1] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[2] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[3] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[4] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[5] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[6] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[7] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[8] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[9] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2]));o[10] = ((i[0]).wrapping_mul(i[2])).wrapping_sub((i[1]).wrapping_mul(i[3])); o[11] = ((i[0]).wrapping_mul(i[3])).wrapping_add((i[1]).wrapping_mul(i[2])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_squared_i64(i: &[i64; 4], o: &mut [i64; 4]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])); o[1] = ((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0]));o[2] = ((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])); o[3] = ((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_cubed_i64(i: &[i64; 4], o: &mut [i64; 4]) -> bool {
    o[0] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[0])).wrapping_sub(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[1])); o[1] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[1])).wrapping_add(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[0]));o[2] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[0])).wrapping_sub(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[1])); o[3] = (((((i[0]).wrapping_mul(i[0])).wrapping_sub((i[1]).wrapping_mul(i[1])))).wrapping_mul(i[1])).wrapping_add(((((i[0]).wrapping_mul(i[1])).wrapping_add((i[1]).wrapping_mul(i[0])))).wrapping_mul(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_squares_i64(i: &[i64; 4], o: &mut [i64; 3]) -> bool {
    o[0] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[1] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1]));o[2] = ((i[0]).wrapping_mul(i[0])).wrapping_add((i[1]).wrapping_mul(i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_scale_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    o[0] = (i[0]).wrapping_mul(i[2]); o[1] = (i[1]).wrapping_mul(i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_unscale_i64(i: &[i64; 3], o: &mut [i64; 2]) -> bool {
    if i[2] == 0 || i[2] == -1 { return false; } o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    if i[1] == -1 { return false; } if i[1] != 0 { o[0] = i[0] / i[1]; o[1] = 1; } else { o[1] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_2_i64(i: &[i64; 3], o: &mut [i64; 3]) -> bool {
    if i[2] == -1 { return false; } if i[2] != 0 { o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; o[2] = 1; } else { o[2] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C01_from_homogeneous_3_i64(i: &[i64; 4], o: &mut [i64; 4]) -> bool {
    if i[3] == -1 { return false; } if i[3] != 0 { o[0] = i[0] / i[3]; o[1] = i[1] / i[3]; o[2] = i[2] / i[3]; o[3] = 1; } else { o[3] = 0; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector1_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    o[0] = (i[0]) * (i[0]);o[1] = (i[0]) * (i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = ((i[0] - i[1])) * ((i[0] - i[1]));o[1] = ((i[0] - i[1])) * ((i[0] - i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point1_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    o[0] = (i[0]) * (i[0]);o[1] = (i[0]) * (i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = ((i[0] - i[1])) * ((i[0] - i[1]));o[1] = ((i[0] - i[1])) * ((i[0] - i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    o[0] = ((i[0]) * (i[2])) + (i[1]) * (i[3]);o[1] = ((i[0]) * (i[2])) + (i[1]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector2_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = ((i[0]) * (i[0])) + (i[1]) * (i[1]);o[1] = ((i[0]) * (i[0])) + (i[1]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    o[0] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3]));o[1] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    o[0] = ((i[0]) * (i[2])) + (i[1]) * (i[3]);o[1] = ((i[0]) * (i[2])) + (i[1]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point2_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = ((i[0]) * (i[0])) + (i[1]) * (i[1]);o[1] = ((i[0]) * (i[0])) + (i[1]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    o[0] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3]));o[1] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    o[0] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]);o[1] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector3_f32(i: &[f32; 3], o: &mut [f32; 2]) -> bool {
    o[0] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]);o[1] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5]));o[1] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    o[0] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]);o[1] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point3_f32(i: &[f32; 3], o: &mut [f32; 2]) -> bool {
    o[0] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]);o[1] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5]));o[1] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector4_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[1] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7]));o[1] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point4_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[1] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7]));o[1] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    o[0] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]);o[1] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector5_f32(i: &[f32; 5], o: &mut [f32; 2]) -> bool {
    o[0] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]);o[1] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9]));o[1] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    o[0] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]);o[1] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point5_f32(i: &[f32; 5], o: &mut [f32; 2]) -> bool {
    o[0] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]);o[1] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9]));o[1] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]);o[1] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector8_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]);o[1] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    o[0] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15]));o[1] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]);o[1] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point8_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]);o[1] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    o[0] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15]));o[1] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_cross_f32(i: &[f32; 9], o: &mut [f32; 3]) -> bool {
    o[0] = ((i[1]) * (i[5])) - (i[2]) * (i[4]); o[1] = ((i[2]) * (i[3])) - (i[0]) * (i[5]); o[2] = ((i[0]) * (i[4])) - (i[1]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_1_1_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]);o[2] = (i[0]) * (i[1]);o[3] = (i[0]) * (i[1]);o[4] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x1_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]);o[2] = (i[0]) * (i[1]);o[3] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_2_2_f32(i: &[f32; 8], o: &mut [f32; 20]) -> bool {
    o[0] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[1] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[2] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[3] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[4] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[5] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[6] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[7] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[8] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[9] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[10] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[11] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[12] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[13] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[14] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[15] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[16] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[17] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[18] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[19] = ((i[1]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_2x2_f32(i: &[f32; 6], o: &mut [f32; 8]) -> bool {
    o[0] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[1] = ((i[1]) * (i[4])) + (i[3]) * (i[5]);o[2] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[3] = ((i[1]) * (i[4])) + (i[3]) * (i[5]);o[4] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[5] = ((i[1]) * (i[4])) + (i[3]) * (i[5]);o[6] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[7] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_3_3_f32(i: &[f32; 18], o: &mut [f32; 45]) -> bool {
    o[0] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[1] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[2] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[3] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[4] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[5] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[6] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[7] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[8] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[9] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[10] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[11] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[12] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[13] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[14] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[15] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[16] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[17] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[18] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[19] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[20] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[21] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[22] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[23] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[24] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[25] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[26] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[27] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[28] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[29] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[30] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[31] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[32] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[33] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[34] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[35] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[36] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[37] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[38] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[39] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[40] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[41] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[42] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[43] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[44] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_3x3_f32(i: &[f32; 12], o: &mut [f32; 12]) -> bool {
    o[0] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[1] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[2] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]);o[3] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[4] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[5] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]);o[6] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[7] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[8] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]);o[9] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[10] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[11] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_4_4_f32(i: &[f32; 32], o: &mut [f32; 80]) -> bool {
    o[0] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[1] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[2] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[3] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[4] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[5] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[6] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[7] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[8] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[9] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[10] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[11] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[12] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[13] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[14] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[15] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[16] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[17] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[18] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[19] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[20] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[21] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[22] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[23] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[24] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[25] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[26] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[27] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[28] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[29] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[30] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[31] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[32] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[33] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[34] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[35] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[36] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[37] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[38] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[39] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[40] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[41] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[42] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[43] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[44] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[45] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[46] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[47] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[48] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[49] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[50] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[51] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[52] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[53] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[54] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[55] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[56] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[57] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[58] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[59] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[60] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[61] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[62] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[63] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[64] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[65] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[66] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[67] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[68] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[69] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[70] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[71] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[72] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[73] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[74] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[75] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[76] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[77] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[78] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[79] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_4x4_f32(i: &[f32; 20], o: &mut [f32; 16]) -> bool {
    o[0] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[1] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[2] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[3] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]);o[4] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[5] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[6] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[7] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]);o[8] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[9] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[10] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[11] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]);o[12] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[13] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[14] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[15] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_3_2_f32(i: &[f32; 12], o: &mut [f32; 20]) -> bool {
    o[0] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[1] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[2] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[3] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[4] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[5] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[6] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[7] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[8] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[9] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[10] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[11] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[12] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[13] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[14] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[15] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[16] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[17] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[18] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[19] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_2_3_f32(i: &[f32; 12], o: &mut [f32; 45]) -> bool {
    o[0] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[1] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[2] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[3] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[4] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[5] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[6] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[7] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[8] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[9] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[10] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[11] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[12] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[13] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[14] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[15] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[16] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[17] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[18] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[19] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[20] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[21] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[22] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[23] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[24] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[25] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[26] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[27] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[28] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[29] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[30] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[31] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[32] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[33] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[34] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[35] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[36] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[37] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[38] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[39] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[40] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[41] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[42] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[43] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[44] = ((i[2]) * (i[10])) + (i[5]) * (i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_4_1_f32(i: &[f32; 8], o: &mut [f32; 5]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[2] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[3] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[4] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x4_f32(i: &[f32; 8], o: &mut [f32; 4]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[2] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[3] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_1_4_f32(i: &[f32; 8], o: &mut [f32; 80]) -> bool {
    o[0] = (i[0]) * (i[4]); o[1] = (i[1]) * (i[4]); o[2] = (i[2]) * (i[4]); o[3] = (i[3]) * (i[4]); o[4] = (i[0]) * (i[5]); o[5] = (i[1]) * (i[5]); o[6] = (i[2]) * (i[5]); o[7] = (i[3]) * (i[5]); o[8] = (i[0]) * (i[6]); o[9] = (i[1]) * (i[6]); o[10] = (i[2]) * (i[6]); o[11] = (i[3]) * (i[6]); o[12] = (i[0]) * (i[7]); o[13] = (i[1]) * (i[7]); o[14] = (i[2]) * (i[7]); o[15] = (i[3]) * (i[7]);o[16] = (i[0]) * (i[4]); o[17] = (i[1]) * (i[4]); o[18] = (i[2]) * (i[4]); o[19] = (i[3]) * (i[4]); o[20] = (i[0]) * (i[5]); o[21] = (i[1]) * (i[5]); o[22] = (i[2]) * (i[5]); o[23] = (i[3]) * (i[5]); o[24] = (i[0]) * (i[6]); o[25] = (i[1]) * (i[6]); o[26] = (i[2]) * (i[6]); o[27] = (i[3]) * (i[6]); o[28] = (i[0]) * (i[7]); o[29] = (i[1]) * (i[7]); o[30] = (i[2]) * (i[7]); o[31] = (i[3]) * (i[7]);o[32] = (i[0]) * (i[4]); o[33] = (i[1]) * (i[4]); o[34] = (i[2]) * (i[4]); o[35] = (i[3]) * (i[4]); o[36] = (i[0]) * (i[5]); o[37] = (i[1]) * (i[5]); o[38] = (i[2]) * (i[5]); o[39] = (i[3]) * (i[5]); o[40] = (i[0]) * (i[6]); o[41] = (i[1]) * (i[6]); o[42] = (i[2]) * (i[6]); o[43] = (i[3]) * (i[6]); o[44] = (i[0]) * (i[7]); o[45] = (i[1]) * (i[7]); o[46] = (i[2]) * (i[7]); o[47] = (i[3]) * (i[7]);o[48] = (i[0]) * (i[4]); o[49] = (i[1]) * (i[4]); o[50] = (i[2]) * (i[4]); o[51] = (i[3]) * (i[4]); o[52] = (i[0]) * (i[5]); o[53] = (i[1]) * (i[5]); o[54] = (i[2]) * (i[5]); o[55] = (i[3]) * (i[5]); o[56] = (i[0]) * (i[6]); o[57] = (i[1]) * (i[6]); o[58] = (i[2]) * (i[6]); o[59] = (i[3]) * (i[6]); o[60] = (i[0]) * (i[7]); o[61] = (i[1]) * (i[7]); o[62] = (i[2]) * (i[7]); o[63] = (i[3]) * (i[7]);o[64] = (i[0]) * (i[4]); o[65] = (i[1]) * (i[4]); o[66] = (i[2]) * (i[4]); o[67] = (i[3]) * (i[4]); o[68] = (i[0]) * (i[5]); o[69] = (i[1]) * (i[5]); o[70] = (i[2]) * (i[5]); o[71] = (i[3]) * (i[5]); o[72] = (i[0]) * (i[6]); o[73] = (i[1]) * (i[6]); o[74] = (i[2]) * (i[6]); o[75] = (i[3]) * (i[6]); o[76] = (i[0]) * (i[7]); o[77] = (i[1]) * (i[7]); o[78] = (i[2]) * (i[7]); o[79] = (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_4_3_f32(i: &[f32; 20], o: &mut [f32; 30]) -> bool {
    o[0] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[1] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[2] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[3] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[4] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[5] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[6] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[7] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[8] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[9] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[10] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[11] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[12] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[13] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[14] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[15] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[16] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[17] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[18] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[19] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[20] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[21] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[22] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[23] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[24] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[25] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[26] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[27] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[28] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[29] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_3_2_f32(i: &[f32; 18], o: &mut [f32; 40]) -> bool {
    o[0] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[1] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[2] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[3] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[4] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[5] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[6] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[7] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[8] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[9] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[10] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[11] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[12] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[13] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[14] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[15] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[16] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[17] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[18] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[19] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[20] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[21] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[22] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[23] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[24] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[25] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[26] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[27] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[28] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[29] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[30] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[31] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[32] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[33] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[34] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[35] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[36] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[37] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[38] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[39] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_5_2_f32(i: &[f32; 25], o: &mut [f32; 24]) -> bool {
    o[0] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[1] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[2] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[3] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[4] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[5] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]);o[6] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[7] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[8] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[9] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[10] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[11] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]);o[12] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[13] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[14] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[15] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[16] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[17] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]);o[18] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[19] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[20] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[21] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[22] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[23] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_9_2_f32(i: &[f32; 36], o: &mut [f32; 16]) -> bool {
    o[0] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[1] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[2] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[3] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]);o[4] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[5] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[6] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[7] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]);o[8] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[9] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[10] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[11] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]);o[12] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[13] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[14] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[15] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_2_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[6])) + (i[2]) * (i[5])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[6])) + (i[2]) * (i[5])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_2_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_3_f32(i: &[f32; 18], o: &mut [f32; 2]) -> bool {
    o[0] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[12])) + (i[2]) * (i[15])) + (i[3]) * (i[10])) + (i[4]) * (i[13])) + (i[5]) * (i[16])) + (i[6]) * (i[11])) + (i[7]) * (i[14])) + (i[8]) * (i[17]);o[1] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[12])) + (i[2]) * (i[15])) + (i[3]) * (i[10])) + (i[4]) * (i[13])) + (i[5]) * (i[16])) + (i[6]) * (i[11])) + (i[7]) * (i[14])) + (i[8]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_3_f32(i: &[f32; 18], o: &mut [f32; 2]) -> bool {
    o[0] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[10])) + (i[2]) * (i[11])) + (i[3]) * (i[12])) + (i[4]) * (i[13])) + (i[5]) * (i[14])) + (i[6]) * (i[15])) + (i[7]) * (i[16])) + (i[8]) * (i[17]);o[1] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[10])) + (i[2]) * (i[11])) + (i[3]) * (i[12])) + (i[4]) * (i[13])) + (i[5]) * (i[14])) + (i[6]) * (i[15])) + (i[7]) * (i[16])) + (i[8]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_4_f32(i: &[f32; 32], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[20])) + (i[2]) * (i[24])) + (i[3]) * (i[28])) + (i[4]) * (i[17])) + (i[5]) * (i[21])) + (i[6]) * (i[25])) + (i[7]) * (i[29])) + (i[8]) * (i[18])) + (i[9]) * (i[22])) + (i[10]) * (i[26])) + (i[11]) * (i[30])) + (i[12]) * (i[19])) + (i[13]) * (i[23])) + (i[14]) * (i[27])) + (i[15]) * (i[31]);o[1] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[20])) + (i[2]) * (i[24])) + (i[3]) * (i[28])) + (i[4]) * (i[17])) + (i[5]) * (i[21])) + (i[6]) * (i[25])) + (i[7]) * (i[29])) + (i[8]) * (i[18])) + (i[9]) * (i[22])) + (i[10]) * (i[26])) + (i[11]) * (i[30])) + (i[12]) * (i[19])) + (i[13]) * (i[23])) + (i[14]) * (i[27])) + (i[15]) * (i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_4_f32(i: &[f32; 32], o: &mut [f32; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[17])) + (i[2]) * (i[18])) + (i[3]) * (i[19])) + (i[4]) * (i[20])) + (i[5]) * (i[21])) + (i[6]) * (i[22])) + (i[7]) * (i[23])) + (i[8]) * (i[24])) + (i[9]) * (i[25])) + (i[10]) * (i[26])) + (i[11]) * (i[27])) + (i[12]) * (i[28])) + (i[13]) * (i[29])) + (i[14]) * (i[30])) + (i[15]) * (i[31]);o[1] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[17])) + (i[2]) * (i[18])) + (i[3]) * (i[19])) + (i[4]) * (i[20])) + (i[5]) * (i[21])) + (i[6]) * (i[22])) + (i[7]) * (i[23])) + (i[8]) * (i[24])) + (i[9]) * (i[25])) + (i[10]) * (i[26])) + (i[11]) * (i[27])) + (i[12]) * (i[28])) + (i[13]) * (i[29])) + (i[14]) * (i[30])) + (i[15]) * (i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_product_f32(i: &[f32; 8], o: &mut [f32; 16]) -> bool {
    o[0] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[1] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[2] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[3] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]);o[4] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[5] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[6] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[7] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]);o[8] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[9] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[10] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[11] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]);o[12] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[13] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[14] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[15] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squares_f32(i: &[f32; 8], o: &mut [f32; 4]) -> bool {
    o[0] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[1] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[2] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[3] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_dot_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_product_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    o[0] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[1] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[2] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[3] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[4] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[5] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[6] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[7] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[8] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[9] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[10] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[11] = ((i[0]) * (i[3])) + (i[1]) * (i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector1_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    o[0] = (i[0]) * (i[0]);o[1] = (i[0]) * (i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = ((i[0] - i[1])) * ((i[0] - i[1]));o[1] = ((i[0] - i[1])) * ((i[0] - i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point1_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    o[0] = (i[0]) * (i[0]);o[1] = (i[0]) * (i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = ((i[0] - i[1])) * ((i[0] - i[1]));o[1] = ((i[0] - i[1])) * ((i[0] - i[1])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    o[0] = ((i[0]) * (i[2])) + (i[1]) * (i[3]);o[1] = ((i[0]) * (i[2])) + (i[1]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector2_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = ((i[0]) * (i[0])) + (i[1]) * (i[1]);o[1] = ((i[0]) * (i[0])) + (i[1]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    o[0] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3]));o[1] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    o[0] = ((i[0]) * (i[2])) + (i[1]) * (i[3]);o[1] = ((i[0]) * (i[2])) + (i[1]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point2_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = ((i[0]) * (i[0])) + (i[1]) * (i[1]);o[1] = ((i[0]) * (i[0])) + (i[1]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    o[0] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3]));o[1] = (((i[0] - i[2])) * ((i[0] - i[2]))) + ((i[1] - i[3])) * ((i[1] - i[3])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    o[0] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]);o[1] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector3_f64(i: &[f64; 3], o: &mut [f64; 2]) -> bool {
    o[0] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]);o[1] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5]));o[1] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    o[0] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]);o[1] = (((i[0]) * (i[3])) + (i[1]) * (i[4])) + (i[2]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point3_f64(i: &[f64; 3], o: &mut [f64; 2]) -> bool {
    o[0] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]);o[1] = (((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5]));o[1] = ((((i[0] - i[3])) * ((i[0] - i[3]))) + ((i[1] - i[4])) * ((i[1] - i[4]))) + ((i[2] - i[5])) * ((i[2] - i[5])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector4_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[1] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7]));o[1] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point4_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[1] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7]));o[1] = (((((i[0] - i[4])) * ((i[0] - i[4]))) + ((i[1] - i[5])) * ((i[1] - i[5]))) + ((i[2] - i[6])) * ((i[2] - i[6]))) + ((i[3] - i[7])) * ((i[3] - i[7])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    o[0] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]);o[1] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector5_f64(i: &[f64; 5], o: &mut [f64; 2]) -> bool {
    o[0] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]);o[1] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9]));o[1] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    o[0] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]);o[1] = (((((i[0]) * (i[5])) + (i[1]) * (i[6])) + (i[2]) * (i[7])) + (i[3]) * (i[8])) + (i[4]) * (i[9]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point5_f64(i: &[f64; 5], o: &mut [f64; 2]) -> bool {
    o[0] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]);o[1] = (((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9]));o[1] = ((((((i[0] - i[5])) * ((i[0] - i[5]))) + ((i[1] - i[6])) * ((i[1] - i[6]))) + ((i[2] - i[7])) * ((i[2] - i[7]))) + ((i[3] - i[8])) * ((i[3] - i[8]))) + ((i[4] - i[9])) * ((i[4] - i[9])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_vector8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]);o[1] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_vector8_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]);o[1] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_vector8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    o[0] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15]));o[1] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_dot_point8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]);o[1] = ((((((((i[0]) * (i[8])) + (i[1]) * (i[9])) + (i[2]) * (i[10])) + (i[3]) * (i[11])) + (i[4]) * (i[12])) + (i[5]) * (i[13])) + (i[6]) * (i[14])) + (i[7]) * (i[15]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_squares_point8_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]);o[1] = ((((((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3])) + (i[4]) * (i[4])) + (i[5]) * (i[5])) + (i[6]) * (i[6])) + (i[7]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C02_distance_point8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    o[0] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15]));o[1] = (((((((((i[0] - i[8])) * ((i[0] - i[8]))) + ((i[1] - i[9])) * ((i[1] - i[9]))) + ((i[2] - i[10])) * ((i[2] - i[10]))) + ((i[3] - i[11])) * ((i[3] - i[11]))) + ((i[4] - i[12])) * ((i[4] - i[12]))) + ((i[5] - i[13])) * ((i[5] - i[13]))) + ((i[6] - i[14])) * ((i[6] - i[14]))) + ((i[7] - i[15])) * ((i[7] - i[15])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C03_cross_f64(i: &[f64; 9], o: &mut [f64; 3]) -> bool {
    o[0] = ((i[1]) * (i[5])) - (i[2]) * (i[4]); o[1] = ((i[2]) * (i[3])) - (i[0]) * (i[5]); o[2] = ((i[0]) * (i[4])) - (i[1]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_1_1_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]);o[2] = (i[0]) * (i[1]);o[3] = (i[0]) * (i[1]);o[4] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x1_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]);o[2] = (i[0]) * (i[1]);o[3] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_2_2_f64(i: &[f64; 8], o: &mut [f64; 20]) -> bool {
    o[0] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[1] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[2] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[3] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[4] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[5] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[6] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[7] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[8] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[9] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[10] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[11] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[12] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[13] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[14] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[15] = ((i[1]) * (i[6])) + (i[3]) * (i[7]);o[16] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[17] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); o[18] = ((i[0]) * (i[6])) + (i[2]) * (i[7]); o[19] = ((i[1]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_2x2_f64(i: &[f64; 6], o: &mut [f64; 8]) -> bool {
    o[0] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[1] = ((i[1]) * (i[4])) + (i[3]) * (i[5]);o[2] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[3] = ((i[1]) * (i[4])) + (i[3]) * (i[5]);o[4] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[5] = ((i[1]) * (i[4])) + (i[3]) * (i[5]);o[6] = ((i[0]) * (i[4])) + (i[2]) * (i[5]); o[7] = ((i[1]) * (i[4])) + (i[3]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_3_3_f64(i: &[f64; 18], o: &mut [f64; 45]) -> bool {
    o[0] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[1] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[2] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[3] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[4] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[5] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[6] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[7] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[8] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[9] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[10] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[11] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[12] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[13] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[14] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[15] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[16] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[17] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[18] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[19] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[20] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[21] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[22] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[23] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[24] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[25] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[26] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[27] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[28] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[29] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[30] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[31] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[32] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[33] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[34] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[35] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]);o[36] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[37] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[38] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); o[39] = (((i[0]) * (i[12])) + (i[3]) * (i[13])) + (i[6]) * (i[14]); o[40] = (((i[1]) * (i[12])) + (i[4]) * (i[13])) + (i[7]) * (i[14]); o[41] = (((i[2]) * (i[12])) + (i[5]) * (i[13])) + (i[8]) * (i[14]); o[42] = (((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17]); o[43] = (((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17]); o[44] = (((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_3x3_f64(i: &[f64; 12], o: &mut [f64; 12]) -> bool {
    o[0] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[1] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[2] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]);o[3] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[4] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[5] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]);o[6] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[7] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[8] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]);o[9] = (((i[0]) * (i[9])) + (i[3]) * (i[10])) + (i[6]) * (i[11]); o[10] = (((i[1]) * (i[9])) + (i[4]) * (i[10])) + (i[7]) * (i[11]); o[11] = (((i[2]) * (i[9])) + (i[5]) * (i[10])) + (i[8]) * (i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_4_4_f64(i: &[f64; 32], o: &mut [f64; 80]) -> bool {
    o[0] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[1] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[2] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[3] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[4] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[5] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[6] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[7] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[8] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[9] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[10] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[11] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[12] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[13] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[14] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[15] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[16] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[17] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[18] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[19] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[20] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[21] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[22] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[23] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[24] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[25] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[26] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[27] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[28] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[29] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[30] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[31] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[32] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[33] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[34] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[35] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[36] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[37] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[38] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[39] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[40] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[41] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[42] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[43] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[44] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[45] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[46] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[47] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[48] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[49] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[50] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[51] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[52] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[53] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[54] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[55] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[56] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[57] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[58] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[59] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[60] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[61] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[62] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[63] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]);o[64] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[65] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[66] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[67] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); o[68] = ((((i[0]) * (i[20])) + (i[4]) * (i[21])) + (i[8]) * (i[22])) + (i[12]) * (i[23]); o[69] = ((((i[1]) * (i[20])) + (i[5]) * (i[21])) + (i[9]) * (i[22])) + (i[13]) * (i[23]); o[70] = ((((i[2]) * (i[20])) + (i[6]) * (i[21])) + (i[10]) * (i[22])) + (i[14]) * (i[23]); o[71] = ((((i[3]) * (i[20])) + (i[7]) * (i[21])) + (i[11]) * (i[22])) + (i[15]) * (i[23]); o[72] = ((((i[0]) * (i[24])) + (i[4]) * (i[25])) + (i[8]) * (i[26])) + (i[12]) * (i[27]); o[73] = ((((i[1]) * (i[24])) + (i[5]) * (i[25])) + (i[9]) * (i[26])) + (i[13]) * (i[27]); o[74] = ((((i[2]) * (i[24])) + (i[6]) * (i[25])) + (i[10]) * (i[26])) + (i[14]) * (i[27]); o[75] = ((((i[3]) * (i[24])) + (i[7]) * (i[25])) + (i[11]) * (i[26])) + (i[15]) * (i[27]); o[76] = ((((i[0]) * (i[28])) + (i[4]) * (i[29])) + (i[8]) * (i[30])) + (i[12]) * (i[31]); o[77] = ((((i[1]) * (i[28])) + (i[5]) * (i[29])) + (i[9]) * (i[30])) + (i[13]) * (i[31]); o[78] = ((((i[2]) * (i[28])) + (i[6]) * (i[29])) + (i[10]) * (i[30])) + (i[14]) * (i[31]); o[79] = ((((i[3]) * (i[28])) + (i[7]) * (i[29])) + (i[11]) * (i[30])) + (i[15]) * (i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_4x4_f64(i: &[f64; 20], o: &mut [f64; 16]) -> bool {
    o[0] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[1] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[2] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[3] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]);o[4] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[5] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[6] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[7] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]);o[8] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[9] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[10] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[11] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]);o[12] = ((((i[0]) * (i[16])) + (i[4]) * (i[17])) + (i[8]) * (i[18])) + (i[12]) * (i[19]); o[13] = ((((i[1]) * (i[16])) + (i[5]) * (i[17])) + (i[9]) * (i[18])) + (i[13]) * (i[19]); o[14] = ((((i[2]) * (i[16])) + (i[6]) * (i[17])) + (i[10]) * (i[18])) + (i[14]) * (i[19]); o[15] = ((((i[3]) * (i[16])) + (i[7]) * (i[17])) + (i[11]) * (i[18])) + (i[15]) * (i[19]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_3_2_f64(i: &[f64; 12], o: &mut [f64; 20]) -> bool {
    o[0] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[1] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[2] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[3] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[4] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[5] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[6] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[7] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[8] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[9] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[10] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[11] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[12] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[13] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[14] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[15] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]);o[16] = (((i[0]) * (i[6])) + (i[2]) * (i[7])) + (i[4]) * (i[8]); o[17] = (((i[1]) * (i[6])) + (i[3]) * (i[7])) + (i[5]) * (i[8]); o[18] = (((i[0]) * (i[9])) + (i[2]) * (i[10])) + (i[4]) * (i[11]); o[19] = (((i[1]) * (i[9])) + (i[3]) * (i[10])) + (i[5]) * (i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_2_3_f64(i: &[f64; 12], o: &mut [f64; 45]) -> bool {
    o[0] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[1] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[2] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[3] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[4] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[5] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[6] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[7] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[8] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[9] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[10] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[11] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[12] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[13] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[14] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[15] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[16] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[17] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[18] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[19] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[20] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[21] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[22] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[23] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[24] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[25] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[26] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[27] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[28] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[29] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[30] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[31] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[32] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[33] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[34] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[35] = ((i[2]) * (i[10])) + (i[5]) * (i[11]);o[36] = ((i[0]) * (i[6])) + (i[3]) * (i[7]); o[37] = ((i[1]) * (i[6])) + (i[4]) * (i[7]); o[38] = ((i[2]) * (i[6])) + (i[5]) * (i[7]); o[39] = ((i[0]) * (i[8])) + (i[3]) * (i[9]); o[40] = ((i[1]) * (i[8])) + (i[4]) * (i[9]); o[41] = ((i[2]) * (i[8])) + (i[5]) * (i[9]); o[42] = ((i[0]) * (i[10])) + (i[3]) * (i[11]); o[43] = ((i[1]) * (i[10])) + (i[4]) * (i[11]); o[44] = ((i[2]) * (i[10])) + (i[5]) * (i[11]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_1_4_1_f64(i: &[f64; 8], o: &mut [f64; 5]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[2] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[3] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[4] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_apply_1x4_f64(i: &[f64; 8], o: &mut [f64; 4]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[2] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[3] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_1_4_f64(i: &[f64; 8], o: &mut [f64; 80]) -> bool {
    o[0] = (i[0]) * (i[4]); o[1] = (i[1]) * (i[4]); o[2] = (i[2]) * (i[4]); o[3] = (i[3]) * (i[4]); o[4] = (i[0]) * (i[5]); o[5] = (i[1]) * (i[5]); o[6] = (i[2]) * (i[5]); o[7] = (i[3]) * (i[5]); o[8] = (i[0]) * (i[6]); o[9] = (i[1]) * (i[6]); o[10] = (i[2]) * (i[6]); o[11] = (i[3]) * (i[6]); o[12] = (i[0]) * (i[7]); o[13] = (i[1]) * (i[7]); o[14] = (i[2]) * (i[7]); o[15] = (i[3]) * (i[7]);o[16] = (i[0]) * (i[4]); o[17] = (i[1]) * (i[4]); o[18] = (i[2]) * (i[4]); o[19] = (i[3]) * (i[4]); o[20] = (i[0]) * (i[5]); o[21] = (i[1]) * (i[5]); o[22] = (i[2]) * (i[5]); o[23] = (i[3]) * (i[5]); o[24] = (i[0]) * (i[6]); o[25] = (i[1]) * (i[6]); o[26] = (i[2]) * (i[6]); o[27] = (i[3]) * (i[6]); o[28] = (i[0]) * (i[7]); o[29] = (i[1]) * (i[7]); o[30] = (i[2]) * (i[7]); o[31] = (i[3]) * (i[7]);o[32] = (i[0]) * (i[4]); o[33] = (i[1]) * (i[4]); o[34] = (i[2]) * (i[4]); o[35] = (i[3]) * (i[4]); o[36] = (i[0]) * (i[5]); o[37] = (i[1]) * (i[5]); o[38] = (i[2]) * (i[5]); o[39] = (i[3]) * (i[5]); o[40] = (i[0]) * (i[6]); o[41] = (i[1]) * (i[6]); o[42] = (i[2]) * (i[6]); o[43] = (i[3]) * (i[6]); o[44] = (i[0]) * (i[7]); o[45] = (i[1]) * (i[7]); o[46] = (i[2]) * (i[7]); o[47] = (i[3]) * (i[7]);o[48] = (i[0]) * (i[4]); o[49] = (i[1]) * (i[4]); o[50] = (i[2]) * (i[4]); o[51] = (i[3]) * (i[4]); o[52] = (i[0]) * (i[5]); o[53] = (i[1]) * (i[5]); o[54] = (i[2]) * (i[5]); o[55] = (i[3]) * (i[5]); o[56] = (i[0]) * (i[6]); o[57] = (i[1]) * (i[6]); o[58] = (i[2]) * (i[6]); o[59] = (i[3]) * (i[6]); o[60] = (i[0]) * (i[7]); o[61] = (i[1]) * (i[7]); o[62] = (i[2]) * (i[7]); o[63] = (i[3]) * (i[7]);o[64] = (i[0]) * (i[4]); o[65] = (i[1]) * (i[4]); o[66] = (i[2]) * (i[4]); o[67] = (i[3]) * (i[4]); o[68] = (i[0]) * (i[5]); o[69] = (i[1]) * (i[5]); o[70] = (i[2]) * (i[5]); o[71] = (i[3]) * (i[5]); o[72] = (i[0]) * (i[6]); o[73] = (i[1]) * (i[6]); o[74] = (i[2]) * (i[6]); o[75] = (i[3]) * (i[6]); o[76] = (i[0]) * (i[7]); o[77] = (i[1]) * (i[7]); o[78] = (i[2]) * (i[7]); o[79] = (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_4_3_f64(i: &[f64; 20], o: &mut [f64; 30]) -> bool {
    o[0] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[1] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[2] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[3] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[4] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[5] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[6] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[7] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[8] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[9] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[10] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[11] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[12] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[13] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[14] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[15] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[16] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[17] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[18] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[19] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[20] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[21] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[22] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[23] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]);o[24] = ((((i[0]) * (i[8])) + (i[2]) * (i[9])) + (i[4]) * (i[10])) + (i[6]) * (i[11]); o[25] = ((((i[1]) * (i[8])) + (i[3]) * (i[9])) + (i[5]) * (i[10])) + (i[7]) * (i[11]); o[26] = ((((i[0]) * (i[12])) + (i[2]) * (i[13])) + (i[4]) * (i[14])) + (i[6]) * (i[15]); o[27] = ((((i[1]) * (i[12])) + (i[3]) * (i[13])) + (i[5]) * (i[14])) + (i[7]) * (i[15]); o[28] = ((((i[0]) * (i[16])) + (i[2]) * (i[17])) + (i[4]) * (i[18])) + (i[6]) * (i[19]); o[29] = ((((i[1]) * (i[16])) + (i[3]) * (i[17])) + (i[5]) * (i[18])) + (i[7]) * (i[19]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_4_3_2_f64(i: &[f64; 18], o: &mut [f64; 40]) -> bool {
    o[0] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[1] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[2] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[3] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[4] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[5] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[6] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[7] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[8] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[9] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[10] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[11] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[12] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[13] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[14] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[15] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[16] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[17] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[18] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[19] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[20] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[21] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[22] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[23] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[24] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[25] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[26] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[27] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[28] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[29] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[30] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[31] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]);o[32] = (((i[0]) * (i[12])) + (i[4]) * (i[13])) + (i[8]) * (i[14]); o[33] = (((i[1]) * (i[12])) + (i[5]) * (i[13])) + (i[9]) * (i[14]); o[34] = (((i[2]) * (i[12])) + (i[6]) * (i[13])) + (i[10]) * (i[14]); o[35] = (((i[3]) * (i[12])) + (i[7]) * (i[13])) + (i[11]) * (i[14]); o[36] = (((i[0]) * (i[15])) + (i[4]) * (i[16])) + (i[8]) * (i[17]); o[37] = (((i[1]) * (i[15])) + (i[5]) * (i[16])) + (i[9]) * (i[17]); o[38] = (((i[2]) * (i[15])) + (i[6]) * (i[16])) + (i[10]) * (i[17]); o[39] = (((i[3]) * (i[15])) + (i[7]) * (i[16])) + (i[11]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_3_5_2_f64(i: &[f64; 25], o: &mut [f64; 24]) -> bool {
    o[0] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[1] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[2] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[3] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[4] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[5] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]);o[6] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[7] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[8] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[9] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[10] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[11] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]);o[12] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[13] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[14] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[15] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[16] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[17] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]);o[18] = (((((i[0]) * (i[15])) + (i[3]) * (i[16])) + (i[6]) * (i[17])) + (i[9]) * (i[18])) + (i[12]) * (i[19]); o[19] = (((((i[1]) * (i[15])) + (i[4]) * (i[16])) + (i[7]) * (i[17])) + (i[10]) * (i[18])) + (i[13]) * (i[19]); o[20] = (((((i[2]) * (i[15])) + (i[5]) * (i[16])) + (i[8]) * (i[17])) + (i[11]) * (i[18])) + (i[14]) * (i[19]); o[21] = (((((i[0]) * (i[20])) + (i[3]) * (i[21])) + (i[6]) * (i[22])) + (i[9]) * (i[23])) + (i[12]) * (i[24]); o[22] = (((((i[1]) * (i[20])) + (i[4]) * (i[21])) + (i[7]) * (i[22])) + (i[10]) * (i[23])) + (i[13]) * (i[24]); o[23] = (((((i[2]) * (i[20])) + (i[5]) * (i[21])) + (i[8]) * (i[22])) + (i[11]) * (i[23])) + (i[14]) * (i[24]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_product_2_9_2_f64(i: &[f64; 36], o: &mut [f64; 16]) -> bool {
    o[0] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[1] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[2] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[3] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]);o[4] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[5] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[6] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[7] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]);o[8] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[9] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[10] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[11] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]);o[12] = (((((((((i[0]) * (i[18])) + (i[2]) * (i[19])) + (i[4]) * (i[20])) + (i[6]) * (i[21])) + (i[8]) * (i[22])) + (i[10]) * (i[23])) + (i[12]) * (i[24])) + (i[14]) * (i[25])) + (i[16]) * (i[26]); o[13] = (((((((((i[1]) * (i[18])) + (i[3]) * (i[19])) + (i[5]) * (i[20])) + (i[7]) * (i[21])) + (i[9]) * (i[22])) + (i[11]) * (i[23])) + (i[13]) * (i[24])) + (i[15]) * (i[25])) + (i[17]) * (i[26]); o[14] = (((((((((i[0]) * (i[27])) + (i[2]) * (i[28])) + (i[4]) * (i[29])) + (i[6]) * (i[30])) + (i[8]) * (i[31])) + (i[10]) * (i[32])) + (i[12]) * (i[33])) + (i[14]) * (i[34])) + (i[16]) * (i[35]); o[15] = (((((((((i[1]) * (i[27])) + (i[3]) * (i[28])) + (i[5]) * (i[29])) + (i[7]) * (i[30])) + (i[9]) * (i[31])) + (i[11]) * (i[32])) + (i[13]) * (i[33])) + (i[15]) * (i[34])) + (i[17]) * (i[35]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    o[0] = (i[0]) * (i[1]);o[1] = (i[0]) * (i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_2_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[6])) + (i[2]) * (i[5])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[6])) + (i[2]) * (i[5])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_2_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_3_f64(i: &[f64; 18], o: &mut [f64; 2]) -> bool {
    o[0] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[12])) + (i[2]) * (i[15])) + (i[3]) * (i[10])) + (i[4]) * (i[13])) + (i[5]) * (i[16])) + (i[6]) * (i[11])) + (i[7]) * (i[14])) + (i[8]) * (i[17]);o[1] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[12])) + (i[2]) * (i[15])) + (i[3]) * (i[10])) + (i[4]) * (i[13])) + (i[5]) * (i[16])) + (i[6]) * (i[11])) + (i[7]) * (i[14])) + (i[8]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_3_f64(i: &[f64; 18], o: &mut [f64; 2]) -> bool {
    o[0] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[10])) + (i[2]) * (i[11])) + (i[3]) * (i[12])) + (i[4]) * (i[13])) + (i[5]) * (i[14])) + (i[6]) * (i[15])) + (i[7]) * (i[16])) + (i[8]) * (i[17]);o[1] = (((((((((i[0]) * (i[9])) + (i[1]) * (i[10])) + (i[2]) * (i[11])) + (i[3]) * (i[12])) + (i[4]) * (i[13])) + (i[5]) * (i[14])) + (i[6]) * (i[15])) + (i[7]) * (i[16])) + (i[8]) * (i[17]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_tr_dot_4_f64(i: &[f64; 32], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[20])) + (i[2]) * (i[24])) + (i[3]) * (i[28])) + (i[4]) * (i[17])) + (i[5]) * (i[21])) + (i[6]) * (i[25])) + (i[7]) * (i[29])) + (i[8]) * (i[18])) + (i[9]) * (i[22])) + (i[10]) * (i[26])) + (i[11]) * (i[30])) + (i[12]) * (i[19])) + (i[13]) * (i[23])) + (i[14]) * (i[27])) + (i[15]) * (i[31]);o[1] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[20])) + (i[2]) * (i[24])) + (i[3]) * (i[28])) + (i[4]) * (i[17])) + (i[5]) * (i[21])) + (i[6]) * (i[25])) + (i[7]) * (i[29])) + (i[8]) * (i[18])) + (i[9]) * (i[22])) + (i[10]) * (i[26])) + (i[11]) * (i[30])) + (i[12]) * (i[19])) + (i[13]) * (i[23])) + (i[14]) * (i[27])) + (i[15]) * (i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C04_dot_4_f64(i: &[f64; 32], o: &mut [f64; 2]) -> bool {
    o[0] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[17])) + (i[2]) * (i[18])) + (i[3]) * (i[19])) + (i[4]) * (i[20])) + (i[5]) * (i[21])) + (i[6]) * (i[22])) + (i[7]) * (i[23])) + (i[8]) * (i[24])) + (i[9]) * (i[25])) + (i[10]) * (i[26])) + (i[11]) * (i[27])) + (i[12]) * (i[28])) + (i[13]) * (i[29])) + (i[14]) * (i[30])) + (i[15]) * (i[31]);o[1] = ((((((((((((((((i[0]) * (i[16])) + (i[1]) * (i[17])) + (i[2]) * (i[18])) + (i[3]) * (i[19])) + (i[4]) * (i[20])) + (i[5]) * (i[21])) + (i[6]) * (i[22])) + (i[7]) * (i[23])) + (i[8]) * (i[24])) + (i[9]) * (i[25])) + (i[10]) * (i[26])) + (i[11]) * (i[27])) + (i[12]) * (i[28])) + (i[13]) * (i[29])) + (i[14]) * (i[30])) + (i[15]) * (i[31]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_product_f64(i: &[f64; 8], o: &mut [f64; 16]) -> bool {
    o[0] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[1] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[2] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[3] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]);o[4] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[5] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[6] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[7] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]);o[8] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[9] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[10] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[11] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]);o[12] = ((((i[0]) * (i[4])) - (i[1]) * (i[5])) - (i[2]) * (i[6])) - (i[3]) * (i[7]); o[13] = ((((i[0]) * (i[5])) + (i[1]) * (i[4])) + (i[2]) * (i[7])) - (i[3]) * (i[6]); o[14] = ((((i[0]) * (i[6])) + (i[2]) * (i[4])) + (i[3]) * (i[5])) - (i[1]) * (i[7]); o[15] = ((((i[0]) * (i[7])) + (i[3]) * (i[4])) + (i[1]) * (i[6])) - (i[2]) * (i[5]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_squares_f64(i: &[f64; 8], o: &mut [f64; 4]) -> bool {
    o[0] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[1] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[2] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]);o[3] = ((((i[0]) * (i[0])) + (i[1]) * (i[1])) + (i[2]) * (i[2])) + (i[3]) * (i[3]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C10_dot_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    o[0] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]);o[1] = ((((i[0]) * (i[4])) + (i[1]) * (i[5])) + (i[2]) * (i[6])) + (i[3]) * (i[7]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C15_product_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    o[0] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[1] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[2] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[3] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[4] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[5] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[6] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[7] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[8] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[9] = ((i[0]) * (i[3])) + (i[1]) * (i[2]);o[10] = ((i[0]) * (i[2])) - (i[1]) * (i[3]); o[11] = ((i[0]) * (i[3])) + (i[1]) * (i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector2_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector3_u8(i: &[u8; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector5_u8(i: &[u8; 10], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[5] && i[1] == i[6] && i[2] == i[7] && i[3] == i[8] && i[4] == i[9]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector9_u8(i: &[u8; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point2_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point3_u8(i: &[u8; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x2_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x3_u8(i: &[u8; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x4_u8(i: &[u8; 32], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[16] && i[1] == i[17] && i[2] == i[18] && i[3] == i[19] && i[4] == i[20] && i[5] == i[21] && i[6] == i[22] && i[7] == i[23] && i[8] == i[24] && i[9] == i[25] && i[10] == i[26] && i[11] == i[27] && i[12] == i[28] && i[13] == i[29] && i[14] == i[30] && i[15] == i[31]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11] && i[12] == i[12] && i[13] == i[13] && i[14] == i[14] && i[15] == i[15]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x3_u8(i: &[u8; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x2_u8(i: &[u8; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x3_u8(i: &[u8; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x4_u8(i: &[u8; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x2_u8(i: &[u8; 16], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[8] && i[1] == i[9] && i[2] == i[10] && i[3] == i[11] && i[4] == i[12] && i[5] == i[13] && i[6] == i[14] && i[7] == i[15]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_quaternion_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_complex_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_radians_u8(i: &[u8; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_degrees_u8(i: &[u8; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector1_i32(i: &[i32; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector2_i32(i: &[i32; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector3_i32(i: &[i32; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector4_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector5_i32(i: &[i32; 10], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[5] && i[1] == i[6] && i[2] == i[7] && i[3] == i[8] && i[4] == i[9]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector9_i32(i: &[i32; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point1_i32(i: &[i32; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point2_i32(i: &[i32; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point3_i32(i: &[i32; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point4_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x1_i32(i: &[i32; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x2_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x3_i32(i: &[i32; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x4_i32(i: &[i32; 32], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[16] && i[1] == i[17] && i[2] == i[18] && i[3] == i[19] && i[4] == i[20] && i[5] == i[21] && i[6] == i[22] && i[7] == i[23] && i[8] == i[24] && i[9] == i[25] && i[10] == i[26] && i[11] == i[27] && i[12] == i[28] && i[13] == i[29] && i[14] == i[30] && i[15] == i[31]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11] && i[12] == i[12] && i[13] == i[13] && i[14] == i[14] && i[15] == i[15]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x3_i32(i: &[i32; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x2_i32(i: &[i32; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x3_i32(i: &[i32; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x4_i32(i: &[i32; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x4_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x2_i32(i: &[i32; 16], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[8] && i[1] == i[9] && i[2] == i[10] && i[3] == i[11] && i[4] == i[12] && i[5] == i[13] && i[6] == i[14] && i[7] == i[15]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_quaternion_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_complex_i32(i: &[i32; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_radians_i32(i: &[i32; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_degrees_i32(i: &[i32; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector1_u64(i: &[u64; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector2_u64(i: &[u64; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector3_u64(i: &[u64; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector4_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector5_u64(i: &[u64; 10], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[5] && i[1] == i[6] && i[2] == i[7] && i[3] == i[8] && i[4] == i[9]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector9_u64(i: &[u64; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point1_u64(i: &[u64; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point2_u64(i: &[u64; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point3_u64(i: &[u64; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point4_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x1_u64(i: &[u64; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x2_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x3_u64(i: &[u64; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x4_u64(i: &[u64; 32], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[16] && i[1] == i[17] && i[2] == i[18] && i[3] == i[19] && i[4] == i[20] && i[5] == i[21] && i[6] == i[22] && i[7] == i[23] && i[8] == i[24] && i[9] == i[25] && i[10] == i[26] && i[11] == i[27] && i[12] == i[28] && i[13] == i[29] && i[14] == i[30] && i[15] == i[31]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11] && i[12] == i[12] && i[13] == i[13] && i[14] == i[14] && i[15] == i[15]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x3_u64(i: &[u64; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x2_u64(i: &[u64; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x3_u64(i: &[u64; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x4_u64(i: &[u64; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x4_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x2_u64(i: &[u64; 16], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[8] && i[1] == i[9] && i[2] == i[10] && i[3] == i[11] && i[4] == i[12] && i[5] == i[13] && i[6] == i[14] && i[7] == i[15]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_quaternion_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_complex_u64(i: &[u64; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_radians_u64(i: &[u64; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_degrees_u64(i: &[u64; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector1_f32(i: &[f32; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector3_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector4_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector5_f32(i: &[f32; 10], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[5] && i[1] == i[6] && i[2] == i[7] && i[3] == i[8] && i[4] == i[9]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector9_f32(i: &[f32; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point1_f32(i: &[f32; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point3_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point4_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x1_f32(i: &[f32; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x2_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x3_f32(i: &[f32; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x4_f32(i: &[f32; 32], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[16] && i[1] == i[17] && i[2] == i[18] && i[3] == i[19] && i[4] == i[20] && i[5] == i[21] && i[6] == i[22] && i[7] == i[23] && i[8] == i[24] && i[9] == i[25] && i[10] == i[26] && i[11] == i[27] && i[12] == i[28] && i[13] == i[29] && i[14] == i[30] && i[15] == i[31]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11] && i[12] == i[12] && i[13] == i[13] && i[14] == i[14] && i[15] == i[15]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x3_f32(i: &[f32; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x2_f32(i: &[f32; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x3_f32(i: &[f32; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x4_f32(i: &[f32; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x4_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x2_f32(i: &[f32; 16], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[8] && i[1] == i[9] && i[2] == i[10] && i[3] == i[11] && i[4] == i[12] && i[5] == i[13] && i[6] == i[14] && i[7] == i[15]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_quaternion_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_complex_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_radians_f32(i: &[f32; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_degrees_f32(i: &[f32; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_euler_radians_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_euler_degrees_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector1_f64(i: &[f64; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector3_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector4_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector5_f64(i: &[f64; 10], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[5] && i[1] == i[6] && i[2] == i[7] && i[3] == i[8] && i[4] == i[9]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_vector9_f64(i: &[f64; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point1_f64(i: &[f64; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point3_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_point4_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x1_f64(i: &[f64; 2], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x2_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x3_f64(i: &[f64; 18], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[9] && i[1] == i[10] && i[2] == i[11] && i[3] == i[12] && i[4] == i[13] && i[5] == i[14] && i[6] == i[15] && i[7] == i[16] && i[8] == i[17]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x4_f64(i: &[f64; 32], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[16] && i[1] == i[17] && i[2] == i[18] && i[3] == i[19] && i[4] == i[20] && i[5] == i[21] && i[6] == i[22] && i[7] == i[23] && i[8] == i[24] && i[9] == i[25] && i[10] == i[26] && i[11] == i[27] && i[12] == i[28] && i[13] == i[29] && i[14] == i[30] && i[15] == i[31]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11] && i[12] == i[12] && i[13] == i[13] && i[14] == i[14] && i[15] == i[15]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix2x3_f64(i: &[f64; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x2_f64(i: &[f64; 12], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[6] && i[1] == i[7] && i[2] == i[8] && i[3] == i[9] && i[4] == i[10] && i[5] == i[11]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x3_f64(i: &[f64; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix3x4_f64(i: &[f64; 24], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[12] && i[1] == i[13] && i[2] == i[14] && i[3] == i[15] && i[4] == i[16] && i[5] == i[17] && i[6] == i[18] && i[7] == i[19] && i[8] == i[20] && i[9] == i[21] && i[10] == i[22] && i[11] == i[23]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7] && i[8] == i[8] && i[9] == i[9] && i[10] == i[10] && i[11] == i[11]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix1x4_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_matrix4x2_f64(i: &[f64; 16], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[8] && i[1] == i[9] && i[2] == i[10] && i[3] == i[11] && i[4] == i[12] && i[5] == i[13] && i[6] == i[14] && i[7] == i[15]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3] && i[4] == i[4] && i[5] == i[5] && i[6] == i[6] && i[7] == i[7]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_quaternion_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[4] && i[1] == i[5] && i[2] == i[6] && i[3] == i[7]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2] && i[3] == i[3]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_complex_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[2] && i[1] == i[3]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_radians_f64(i: &[f64; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_degrees_f64(i: &[f64; 2], o: &mut [u8; 9]) -> bool {
    let e = i[0] == i[1]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0]; o[3] = e as u8;o[4] = (i[0] < i[1]) as u8;o[5] = (i[0] <= i[1]) as u8;o[6] = (i[0] > i[1]) as u8;o[7] = (i[0] >= i[1]) as u8;o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_euler_radians_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C29_eq_euler_degrees_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let e = i[0] == i[3] && i[1] == i[4] && i[2] == i[5]; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = i[0] == i[0] && i[1] == i[1] && i[2] == i[2]; o[3] = e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_vector1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_vector1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_vector2_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_vector2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_vector2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_vector2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_vector2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_vector2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_vector3_f32(i: &[f32; 7], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[6]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_vector3_f32(i: &[f32; 9], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[7]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[8]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_vector3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_vector3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_vector4_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_vector4_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_vector5_f32(i: &[f32; 3], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_vector5_f32(i: &[f32; 3], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_point1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_point1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_point2_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_point2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_point2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_point2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_point2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_point2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_point3_f32(i: &[f32; 7], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[6]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_point3_f32(i: &[f32; 9], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[7]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[8]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_point3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_point3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_matrix1x1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_matrix1x1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix2x2_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix2x2_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_matrix1x2_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_matrix1x2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_matrix1x2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_matrix1x2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_matrix1x2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_matrix1x2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix3x2_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix3x2_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix2x3_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix2x3_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix3x3_f32(i: &[f32; 3], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix3x3_f32(i: &[f32; 3], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix4x4_f32(i: &[f32; 3], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix4x4_f32(i: &[f32; 3], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_quaternion_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_quaternion_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_complex_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_complex_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_complex_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_complex_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_complex_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_complex_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_radians_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_radians_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_radians_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_degrees_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_degrees_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_degrees_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_euler_f32(i: &[f32; 7], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[6]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_euler_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_euler_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_euler_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_vector1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_vector1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_vector2_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_vector2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_vector2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_vector2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_vector2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_vector2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_vector3_f64(i: &[f64; 7], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[6]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_vector3_f64(i: &[f64; 9], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[7]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[8]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_vector3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_vector3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_vector4_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_vector4_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_vector5_f64(i: &[f64; 3], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_vector5_f64(i: &[f64; 3], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_point1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_point1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_point2_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_point2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_point2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_point2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_point2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_point2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_point3_f64(i: &[f64; 7], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[6]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_point3_f64(i: &[f64; 9], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[7]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[8]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_point3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_point3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_matrix1x1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_matrix1x1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix2x2_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix2x2_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_matrix1x2_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_matrix1x2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_matrix1x2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_matrix1x2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_matrix1x2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_matrix1x2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix3x2_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix3x2_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix2x3_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix2x3_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix3x3_f64(i: &[f64; 3], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix3x3_f64(i: &[f64; 3], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_matrix4x4_f64(i: &[f64; 3], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_matrix4x4_f64(i: &[f64; 3], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e;o[4] = e;o[5] = e;o[6] = e;o[7] = e;o[8] = e;o[9] = e;o[10] = e;o[11] = e;o[12] = e;o[13] = e;o[14] = e;o[15] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_quaternion_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_each_quaternion_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e;o[3] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_complex_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[4]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_complex_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[2], &i[4]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[3], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_complex_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[5]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[4], &i[5]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_complex_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[2], &i[4], &i[6]) && approx_cmp::RelativeEq::relative_eq(&i[1], &i[3], &i[5], &i[7]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_complex_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[5].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[4], &i[5].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_complex_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[2], &i[4], &i[6].to_bits()) && approx_cmp::UlpsEq::ulps_eq(&i[1], &i[3], &i[5], &i[7].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_radians_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_radians_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_radians_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_degrees_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_degrees_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_degrees_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_euler_f64(i: &[f64; 7], o: &mut [u8; 2]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[3], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[1], &i[4], &i[6]) && approx_cmp::AbsDiffEq::abs_diff_eq(&i[2], &i[5], &i[6]); o[0] = e as u8; o[1] = !e as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_abs_diff_all_each_euler_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::AbsDiffEq::abs_diff_eq(&i[0], &i[1], &i[2]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_relative_all_each_euler_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::RelativeEq::relative_eq(&i[0], &i[1], &i[2], &i[3]) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C23_ulps_all_each_euler_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    let e = approx_cmp::UlpsEq::ulps_eq(&i[0], &i[1], &i[2], &i[3].to_bits()) as u8;o[0] = e;o[1] = e;o[2] = e; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C16_arg_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let a = libm::atan2f(i[1], i[0]); o[0] = a; o[1] = a; o[2] = a; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C16_arg_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let a = libm::atan2(i[1], i[0]); o[0] = a; o[1] = a; o[2] = a; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_radians_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let r = i[0].wrapping_add(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_radians_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let r = i[0].wrapping_sub(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_radians_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let r = i[0].wrapping_mul(i[1]); o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_neg_radians_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let r = i[0].wrapping_neg(); o[0] = r; o[1] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_degrees_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let r = i[0].wrapping_add(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_degrees_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let r = i[0].wrapping_sub(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_degrees_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let r = i[0].wrapping_mul(i[1]); o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_neg_degrees_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let r = i[0].wrapping_neg(); o[0] = r; o[1] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_radians_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let r = i[0].wrapping_add(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_radians_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let r = i[0].wrapping_sub(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_radians_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let r = i[0].wrapping_mul(i[1]); o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_degrees_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let r = i[0].wrapping_add(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_degrees_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let r = i[0].wrapping_sub(i[1]); o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_degrees_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let r = i[0].wrapping_mul(i[1]); o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_radians_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let r = i[0] + i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_radians_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let r = i[0] - i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_radians_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let r = i[0] * i[1]; o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_div_radians_f32(i: &[f32; 2], o: &mut [f32; 7]) -> bool {
    let r = i[0] / i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; o[5] = r; o[6] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_rem_radians_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let r = i[0] % i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_neg_radians_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let r = -i[0]; o[0] = r; o[1] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_degrees_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let r = i[0] + i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_degrees_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let r = i[0] - i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_degrees_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let r = i[0] * i[1]; o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_div_degrees_f32(i: &[f32; 2], o: &mut [f32; 7]) -> bool {
    let r = i[0] / i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; o[5] = r; o[6] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_rem_degrees_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let r = i[0] % i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_neg_degrees_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let r = -i[0]; o[0] = r; o[1] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sin_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::sinf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_cos_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::cosf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_tan_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::tanf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_asin_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::asinf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_acos_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::acosf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_atan_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = libm::atanf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_atan2_radians_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = libm::atan2f(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sin_cos_radians_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    o[0] = libm::sinf(i[0]); o[1] = libm::cosf(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_radians_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let r = i[0] + i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_radians_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let r = i[0] - i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_radians_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let r = i[0] * i[1]; o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_div_radians_f64(i: &[f64; 2], o: &mut [f64; 7]) -> bool {
    let r = i[0] / i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; o[5] = r; o[6] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_rem_radians_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let r = i[0] % i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_neg_radians_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let r = -i[0]; o[0] = r; o[1] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_add_degrees_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let r = i[0] + i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sub_degrees_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let r = i[0] - i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_mul_degrees_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let r = i[0] * i[1]; o[0] = r; o[1] = r; o[2] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_div_degrees_f64(i: &[f64; 2], o: &mut [f64; 7]) -> bool {
    let r = i[0] / i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; o[5] = r; o[6] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_rem_degrees_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let r = i[0] % i[1]; o[0] = r; o[1] = r; o[2] = r; o[3] = r; o[4] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_neg_degrees_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let r = -i[0]; o[0] = r; o[1] = r; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sin_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::sin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_cos_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::cos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_tan_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::tan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_asin_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::asin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_acos_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::acos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_atan_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = libm::atan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_atan2_radians_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = libm::atan2(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn r_C17_sin_cos_radians_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    o[0] = libm::sin(i[0]); o[1] = libm::cos(i[0]); true
}
