//! Written by gen.py: calls into the library.
#![allow(unused_parens, unused_comparisons, unused_mut, unused_variables, unused_assignments, unused_imports, improper_ctypes_definitions, clippy::all)]
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_trigonometry::*;
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Vector::<u8, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let s = i[0]; let x = Point::<u8, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    let s = i[0]; let x = Vector::<u8, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_u8(i: &[u8; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Point::<u8, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_u8(i: &[u8; 9], o: &mut [u8; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let s = i[0]; let x = Vector::<u8, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_u8(i: &[u8; 4], o: &mut [u8; 6]) -> bool {
    let s = i[0]; let x = Point::<u8, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 36]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_u8(i: &[u8; 13], o: &mut [u8; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    let s = i[0]; let x = Vector::<u8, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 64]) -> bool {
    let s = i[0]; let x = Matrix::<u8, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_u8(i: &[u8; 5], o: &mut [u8; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<u8>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    let s = i[0]; let x = Complex::<u8>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_u8(i: &[u8; 3], o: &mut [u8; 8]) -> bool {
    let s = i[0]; let x = Complex::<u8>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_u8(i: &[u8; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<u8>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_u8(i: &[u8; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<u8>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_u16(i: &[u16; 2], o: &mut [u16; 4]) -> bool {
    let s = i[0]; let x = Vector::<u16, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_u16(i: &[u16; 2], o: &mut [u16; 2]) -> bool {
    let s = i[0]; let x = Point::<u16, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_u16(i: &[u16; 2], o: &mut [u16; 4]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_u16(i: &[u16; 4], o: &mut [u16; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    let s = i[0]; let x = Vector::<u16, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_u16(i: &[u16; 3], o: &mut [u16; 4]) -> bool {
    let s = i[0]; let x = Point::<u16, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_u16(i: &[u16; 7], o: &mut [u16; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_u16(i: &[u16; 9], o: &mut [u16; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_u16(i: &[u16; 4], o: &mut [u16; 12]) -> bool {
    let s = i[0]; let x = Vector::<u16, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_u16(i: &[u16; 4], o: &mut [u16; 6]) -> bool {
    let s = i[0]; let x = Point::<u16, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_u16(i: &[u16; 4], o: &mut [u16; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_u16(i: &[u16; 7], o: &mut [u16; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_u16(i: &[u16; 10], o: &mut [u16; 36]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_u16(i: &[u16; 13], o: &mut [u16; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    let s = i[0]; let x = Vector::<u16, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_u16(i: &[u16; 9], o: &mut [u16; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_u16(i: &[u16; 13], o: &mut [u16; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_u16(i: &[u16; 17], o: &mut [u16; 64]) -> bool {
    let s = i[0]; let x = Matrix::<u16, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_u16(i: &[u16; 5], o: &mut [u16; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<u16>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    let s = i[0]; let x = Complex::<u16>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_u16(i: &[u16; 3], o: &mut [u16; 8]) -> bool {
    let s = i[0]; let x = Complex::<u16>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_u16(i: &[u16; 3], o: &mut [u16; 4]) -> bool {
    let s = i[0]; let x = Complex::<u16>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_u16(i: &[u16; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<u16>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_u32(i: &[u32; 2], o: &mut [u32; 4]) -> bool {
    let s = i[0]; let x = Vector::<u32, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_u32(i: &[u32; 2], o: &mut [u32; 2]) -> bool {
    let s = i[0]; let x = Point::<u32, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_u32(i: &[u32; 2], o: &mut [u32; 4]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_u32(i: &[u32; 4], o: &mut [u32; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    let s = i[0]; let x = Vector::<u32, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_u32(i: &[u32; 3], o: &mut [u32; 4]) -> bool {
    let s = i[0]; let x = Point::<u32, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_u32(i: &[u32; 7], o: &mut [u32; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_u32(i: &[u32; 9], o: &mut [u32; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_u32(i: &[u32; 4], o: &mut [u32; 12]) -> bool {
    let s = i[0]; let x = Vector::<u32, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_u32(i: &[u32; 4], o: &mut [u32; 6]) -> bool {
    let s = i[0]; let x = Point::<u32, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_u32(i: &[u32; 4], o: &mut [u32; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_u32(i: &[u32; 7], o: &mut [u32; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_u32(i: &[u32; 10], o: &mut [u32; 36]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_u32(i: &[u32; 13], o: &mut [u32; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    let s = i[0]; let x = Vector::<u32, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_u32(i: &[u32; 9], o: &mut [u32; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_u32(i: &[u32; 13], o: &mut [u32; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_u32(i: &[u32; 17], o: &mut [u32; 64]) -> bool {
    let s = i[0]; let x = Matrix::<u32, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_u32(i: &[u32; 5], o: &mut [u32; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<u32>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    let s = i[0]; let x = Complex::<u32>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_u32(i: &[u32; 3], o: &mut [u32; 8]) -> bool {
    let s = i[0]; let x = Complex::<u32>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_u32(i: &[u32; 3], o: &mut [u32; 4]) -> bool {
    let s = i[0]; let x = Complex::<u32>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_u32(i: &[u32; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<u32>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_u64(i: &[u64; 2], o: &mut [u64; 4]) -> bool {
    let s = i[0]; let x = Vector::<u64, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_u64(i: &[u64; 2], o: &mut [u64; 2]) -> bool {
    let s = i[0]; let x = Point::<u64, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 4]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    let s = i[0]; let x = Vector::<u64, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_u64(i: &[u64; 3], o: &mut [u64; 4]) -> bool {
    let s = i[0]; let x = Point::<u64, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_u64(i: &[u64; 9], o: &mut [u64; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let s = i[0]; let x = Vector::<u64, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_u64(i: &[u64; 4], o: &mut [u64; 6]) -> bool {
    let s = i[0]; let x = Point::<u64, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 36]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_u64(i: &[u64; 13], o: &mut [u64; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    let s = i[0]; let x = Vector::<u64, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 64]) -> bool {
    let s = i[0]; let x = Matrix::<u64, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_u64(i: &[u64; 5], o: &mut [u64; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<u64>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    let s = i[0]; let x = Complex::<u64>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_u64(i: &[u64; 3], o: &mut [u64; 8]) -> bool {
    let s = i[0]; let x = Complex::<u64>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_u64(i: &[u64; 3], o: &mut [u64; 4]) -> bool {
    let s = i[0]; let x = Complex::<u64>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_u64(i: &[u64; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<u64>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_u128(i: &[u128; 2], o: &mut [u128; 4]) -> bool {
    let s = i[0]; let x = Vector::<u128, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_u128(i: &[u128; 2], o: &mut [u128; 2]) -> bool {
    let s = i[0]; let x = Point::<u128, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_u128(i: &[u128; 2], o: &mut [u128; 4]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_u128(i: &[u128; 4], o: &mut [u128; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    let s = i[0]; let x = Vector::<u128, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_u128(i: &[u128; 3], o: &mut [u128; 4]) -> bool {
    let s = i[0]; let x = Point::<u128, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_u128(i: &[u128; 7], o: &mut [u128; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_u128(i: &[u128; 9], o: &mut [u128; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_u128(i: &[u128; 4], o: &mut [u128; 12]) -> bool {
    let s = i[0]; let x = Vector::<u128, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_u128(i: &[u128; 4], o: &mut [u128; 6]) -> bool {
    let s = i[0]; let x = Point::<u128, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_u128(i: &[u128; 4], o: &mut [u128; 12]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_u128(i: &[u128; 7], o: &mut [u128; 24]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_u128(i: &[u128; 10], o: &mut [u128; 36]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_u128(i: &[u128; 13], o: &mut [u128; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    let s = i[0]; let x = Vector::<u128, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_u128(i: &[u128; 9], o: &mut [u128; 32]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_u128(i: &[u128; 13], o: &mut [u128; 48]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_u128(i: &[u128; 17], o: &mut [u128; 64]) -> bool {
    let s = i[0]; let x = Matrix::<u128, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_u128(i: &[u128; 5], o: &mut [u128; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<u128>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    let s = i[0]; let x = Complex::<u128>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_u128(i: &[u128; 3], o: &mut [u128; 8]) -> bool {
    let s = i[0]; let x = Complex::<u128>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_u128(i: &[u128; 3], o: &mut [u128; 4]) -> bool {
    let s = i[0]; let x = Complex::<u128>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_u128(i: &[u128; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<u128>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_usize(i: &[usize; 2], o: &mut [usize; 4]) -> bool {
    let s = i[0]; let x = Vector::<usize, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_usize(i: &[usize; 2], o: &mut [usize; 2]) -> bool {
    let s = i[0]; let x = Point::<usize, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_usize(i: &[usize; 2], o: &mut [usize; 4]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_usize(i: &[usize; 4], o: &mut [usize; 12]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    let s = i[0]; let x = Vector::<usize, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_usize(i: &[usize; 3], o: &mut [usize; 4]) -> bool {
    let s = i[0]; let x = Point::<usize, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_usize(i: &[usize; 7], o: &mut [usize; 24]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_usize(i: &[usize; 9], o: &mut [usize; 32]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_usize(i: &[usize; 4], o: &mut [usize; 12]) -> bool {
    let s = i[0]; let x = Vector::<usize, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_usize(i: &[usize; 4], o: &mut [usize; 6]) -> bool {
    let s = i[0]; let x = Point::<usize, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_usize(i: &[usize; 4], o: &mut [usize; 12]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_usize(i: &[usize; 7], o: &mut [usize; 24]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_usize(i: &[usize; 10], o: &mut [usize; 36]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_usize(i: &[usize; 13], o: &mut [usize; 48]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    let s = i[0]; let x = Vector::<usize, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_usize(i: &[usize; 9], o: &mut [usize; 32]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_usize(i: &[usize; 13], o: &mut [usize; 48]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_usize(i: &[usize; 17], o: &mut [usize; 64]) -> bool {
    let s = i[0]; let x = Matrix::<usize, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_usize(i: &[usize; 5], o: &mut [usize; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<usize>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    let s = i[0]; let x = Complex::<usize>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_usize(i: &[usize; 3], o: &mut [usize; 8]) -> bool {
    let s = i[0]; let x = Complex::<usize>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_usize(i: &[usize; 3], o: &mut [usize; 4]) -> bool {
    let s = i[0]; let x = Complex::<usize>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_usize(i: &[usize; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<usize>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_i8(i: &[i8; 2], o: &mut [i8; 4]) -> bool {
    let s = i[0]; let x = Vector::<i8, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_i8(i: &[i8; 2], o: &mut [i8; 2]) -> bool {
    let s = i[0]; let x = Point::<i8, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_i8(i: &[i8; 2], o: &mut [i8; 4]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_i8(i: &[i8; 4], o: &mut [i8; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let s = i[0]; let x = Vector::<i8, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_i8(i: &[i8; 3], o: &mut [i8; 4]) -> bool {
    let s = i[0]; let x = Point::<i8, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_i8(i: &[i8; 7], o: &mut [i8; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_i8(i: &[i8; 9], o: &mut [i8; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_i8(i: &[i8; 4], o: &mut [i8; 12]) -> bool {
    let s = i[0]; let x = Vector::<i8, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_i8(i: &[i8; 4], o: &mut [i8; 6]) -> bool {
    let s = i[0]; let x = Point::<i8, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_i8(i: &[i8; 4], o: &mut [i8; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_i8(i: &[i8; 7], o: &mut [i8; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_i8(i: &[i8; 10], o: &mut [i8; 36]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_i8(i: &[i8; 13], o: &mut [i8; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    let s = i[0]; let x = Vector::<i8, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_i8(i: &[i8; 9], o: &mut [i8; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_i8(i: &[i8; 13], o: &mut [i8; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_i8(i: &[i8; 17], o: &mut [i8; 64]) -> bool {
    let s = i[0]; let x = Matrix::<i8, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_i8(i: &[i8; 5], o: &mut [i8; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<i8>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let s = i[0]; let x = Complex::<i8>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let s = i[0]; let x = Complex::<i8>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_i8(i: &[i8; 3], o: &mut [i8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i8>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_i8(i: &[i8; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i8>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_i8(i: &[i8; 3], o: &mut [i8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i8>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_i8(i: &[i8; 3], o: &mut [i8; 8]) -> bool {
    let s = i[0]; let x = Complex::<i8>::new(i[1], i[2]); if i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == 0 || i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == -1 { return true; }{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_i16(i: &[i16; 2], o: &mut [i16; 4]) -> bool {
    let s = i[0]; let x = Vector::<i16, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_i16(i: &[i16; 2], o: &mut [i16; 2]) -> bool {
    let s = i[0]; let x = Point::<i16, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 4]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let s = i[0]; let x = Vector::<i16, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_i16(i: &[i16; 3], o: &mut [i16; 4]) -> bool {
    let s = i[0]; let x = Point::<i16, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_i16(i: &[i16; 9], o: &mut [i16; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let s = i[0]; let x = Vector::<i16, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_i16(i: &[i16; 4], o: &mut [i16; 6]) -> bool {
    let s = i[0]; let x = Point::<i16, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 36]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_i16(i: &[i16; 13], o: &mut [i16; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    let s = i[0]; let x = Vector::<i16, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 64]) -> bool {
    let s = i[0]; let x = Matrix::<i16, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_i16(i: &[i16; 5], o: &mut [i16; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<i16>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let s = i[0]; let x = Complex::<i16>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let s = i[0]; let x = Complex::<i16>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_i16(i: &[i16; 3], o: &mut [i16; 4]) -> bool {
    let s = i[0]; let x = Complex::<i16>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_i16(i: &[i16; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i16>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_i16(i: &[i16; 3], o: &mut [i16; 4]) -> bool {
    let s = i[0]; let x = Complex::<i16>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_i16(i: &[i16; 3], o: &mut [i16; 8]) -> bool {
    let s = i[0]; let x = Complex::<i16>::new(i[1], i[2]); if i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == 0 || i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == -1 { return true; }{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_i32(i: &[i32; 2], o: &mut [i32; 4]) -> bool {
    let s = i[0]; let x = Vector::<i32, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let s = i[0]; let x = Point::<i32, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 4]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let s = i[0]; let x = Vector::<i32, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_i32(i: &[i32; 3], o: &mut [i32; 4]) -> bool {
    let s = i[0]; let x = Point::<i32, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_i32(i: &[i32; 9], o: &mut [i32; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let s = i[0]; let x = Vector::<i32, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_i32(i: &[i32; 4], o: &mut [i32; 6]) -> bool {
    let s = i[0]; let x = Point::<i32, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 36]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_i32(i: &[i32; 13], o: &mut [i32; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    let s = i[0]; let x = Vector::<i32, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 64]) -> bool {
    let s = i[0]; let x = Matrix::<i32, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_i32(i: &[i32; 5], o: &mut [i32; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<i32>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let s = i[0]; let x = Complex::<i32>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let s = i[0]; let x = Complex::<i32>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_i32(i: &[i32; 3], o: &mut [i32; 4]) -> bool {
    let s = i[0]; let x = Complex::<i32>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_i32(i: &[i32; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i32>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_i32(i: &[i32; 3], o: &mut [i32; 4]) -> bool {
    let s = i[0]; let x = Complex::<i32>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_i32(i: &[i32; 3], o: &mut [i32; 8]) -> bool {
    let s = i[0]; let x = Complex::<i32>::new(i[1], i[2]); if i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == 0 || i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == -1 { return true; }{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_i64(i: &[i64; 2], o: &mut [i64; 4]) -> bool {
    let s = i[0]; let x = Vector::<i64, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let s = i[0]; let x = Point::<i64, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_i64(i: &[i64; 2], o: &mut [i64; 4]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let s = i[0]; let x = Vector::<i64, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_i64(i: &[i64; 3], o: &mut [i64; 4]) -> bool {
    let s = i[0]; let x = Point::<i64, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_i64(i: &[i64; 7], o: &mut [i64; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_i64(i: &[i64; 9], o: &mut [i64; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    let s = i[0]; let x = Vector::<i64, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_i64(i: &[i64; 4], o: &mut [i64; 6]) -> bool {
    let s = i[0]; let x = Point::<i64, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_i64(i: &[i64; 7], o: &mut [i64; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_i64(i: &[i64; 10], o: &mut [i64; 36]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_i64(i: &[i64; 13], o: &mut [i64; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    let s = i[0]; let x = Vector::<i64, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_i64(i: &[i64; 9], o: &mut [i64; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_i64(i: &[i64; 13], o: &mut [i64; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_i64(i: &[i64; 17], o: &mut [i64; 64]) -> bool {
    let s = i[0]; let x = Matrix::<i64, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_i64(i: &[i64; 5], o: &mut [i64; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<i64>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let s = i[0]; let x = Complex::<i64>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let s = i[0]; let x = Complex::<i64>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_i64(i: &[i64; 3], o: &mut [i64; 4]) -> bool {
    let s = i[0]; let x = Complex::<i64>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_i64(i: &[i64; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i64>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_i64(i: &[i64; 3], o: &mut [i64; 4]) -> bool {
    let s = i[0]; let x = Complex::<i64>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_i64(i: &[i64; 3], o: &mut [i64; 8]) -> bool {
    let s = i[0]; let x = Complex::<i64>::new(i[1], i[2]); if i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == 0 || i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == -1 { return true; }{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_i128(i: &[i128; 2], o: &mut [i128; 4]) -> bool {
    let s = i[0]; let x = Vector::<i128, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_i128(i: &[i128; 2], o: &mut [i128; 2]) -> bool {
    let s = i[0]; let x = Point::<i128, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_i128(i: &[i128; 2], o: &mut [i128; 4]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_i128(i: &[i128; 4], o: &mut [i128; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let s = i[0]; let x = Vector::<i128, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_i128(i: &[i128; 3], o: &mut [i128; 4]) -> bool {
    let s = i[0]; let x = Point::<i128, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_i128(i: &[i128; 7], o: &mut [i128; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_i128(i: &[i128; 9], o: &mut [i128; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_i128(i: &[i128; 4], o: &mut [i128; 12]) -> bool {
    let s = i[0]; let x = Vector::<i128, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_i128(i: &[i128; 4], o: &mut [i128; 6]) -> bool {
    let s = i[0]; let x = Point::<i128, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_i128(i: &[i128; 4], o: &mut [i128; 12]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_i128(i: &[i128; 7], o: &mut [i128; 24]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_i128(i: &[i128; 10], o: &mut [i128; 36]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_i128(i: &[i128; 13], o: &mut [i128; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    let s = i[0]; let x = Vector::<i128, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_i128(i: &[i128; 9], o: &mut [i128; 32]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_i128(i: &[i128; 13], o: &mut [i128; 48]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_i128(i: &[i128; 17], o: &mut [i128; 64]) -> bool {
    let s = i[0]; let x = Matrix::<i128, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_i128(i: &[i128; 5], o: &mut [i128; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<i128>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let s = i[0]; let x = Complex::<i128>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let s = i[0]; let x = Complex::<i128>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_i128(i: &[i128; 3], o: &mut [i128; 4]) -> bool {
    let s = i[0]; let x = Complex::<i128>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_i128(i: &[i128; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<i128>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_i128(i: &[i128; 3], o: &mut [i128; 4]) -> bool {
    let s = i[0]; let x = Complex::<i128>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_i128(i: &[i128; 3], o: &mut [i128; 8]) -> bool {
    let s = i[0]; let x = Complex::<i128>::new(i[1], i[2]); if i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == 0 || i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == -1 { return true; }{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_isize(i: &[isize; 2], o: &mut [isize; 4]) -> bool {
    let s = i[0]; let x = Vector::<isize, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_isize(i: &[isize; 2], o: &mut [isize; 2]) -> bool {
    let s = i[0]; let x = Point::<isize, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_isize(i: &[isize; 2], o: &mut [isize; 4]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_isize(i: &[isize; 4], o: &mut [isize; 12]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let s = i[0]; let x = Vector::<isize, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_isize(i: &[isize; 3], o: &mut [isize; 4]) -> bool {
    let s = i[0]; let x = Point::<isize, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_isize(i: &[isize; 7], o: &mut [isize; 24]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_isize(i: &[isize; 9], o: &mut [isize; 32]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_isize(i: &[isize; 4], o: &mut [isize; 12]) -> bool {
    let s = i[0]; let x = Vector::<isize, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_isize(i: &[isize; 4], o: &mut [isize; 6]) -> bool {
    let s = i[0]; let x = Point::<isize, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_isize(i: &[isize; 4], o: &mut [isize; 12]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_isize(i: &[isize; 7], o: &mut [isize; 24]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_isize(i: &[isize; 10], o: &mut [isize; 36]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_isize(i: &[isize; 13], o: &mut [isize; 48]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    let s = i[0]; let x = Vector::<isize, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_isize(i: &[isize; 9], o: &mut [isize; 32]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_isize(i: &[isize; 13], o: &mut [isize; 48]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_isize(i: &[isize; 17], o: &mut [isize; 64]) -> bool {
    let s = i[0]; let x = Matrix::<isize, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_isize(i: &[isize; 5], o: &mut [isize; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<isize>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let s = i[0]; let x = Complex::<isize>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let s = i[0]; let x = Complex::<isize>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_isize(i: &[isize; 3], o: &mut [isize; 4]) -> bool {
    let s = i[0]; let x = Complex::<isize>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_isize(i: &[isize; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<isize>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y == i[2] || y == i[2].wrapping_neg()) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y == i[2] || y == i[2].wrapping_neg()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_isize(i: &[isize; 3], o: &mut [isize; 4]) -> bool {
    let s = i[0]; let x = Complex::<isize>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_isize(i: &[isize; 3], o: &mut [isize; 8]) -> bool {
    let s = i[0]; let x = Complex::<isize>::new(i[1], i[2]); if i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == 0 || i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2])) == -1 { return true; }{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let s = i[0]; let x = Vector::<f32, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let s = i[0]; let x = Point::<f32, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    let s = i[0]; let x = Vector::<f32, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_f32(i: &[f32; 3], o: &mut [f32; 4]) -> bool {
    let s = i[0]; let x = Point::<f32, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 24]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_f32(i: &[f32; 9], o: &mut [f32; 32]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let s = i[0]; let x = Vector::<f32, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_f32(i: &[f32; 4], o: &mut [f32; 6]) -> bool {
    let s = i[0]; let x = Point::<f32, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 24]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 36]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_f32(i: &[f32; 13], o: &mut [f32; 48]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    let s = i[0]; let x = Vector::<f32, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 32]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 48]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 64]) -> bool {
    let s = i[0]; let x = Matrix::<f32, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_f32(i: &[f32; 5], o: &mut [f32; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<f32>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    let s = i[0]; let x = Complex::<f32>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    let s = i[0]; let x = Complex::<f32>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_f32(i: &[f32; 3], o: &mut [f32; 4]) -> bool {
    let s = i[0]; let x = Complex::<f32>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<f32>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_f32(i: &[f32; 3], o: &mut [f32; 4]) -> bool {
    let s = i[0]; let x = Complex::<f32>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_f32(i: &[f32; 3], o: &mut [f32; 8]) -> bool {
    let s = i[0]; let x = Complex::<f32>::new(i[1], i[2]);{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector1_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let s = i[0]; let x = Vector::<f64, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = s * &x; o[1] = y[0]; }{ let y = &s * x; o[2] = y[0]; }{ let y = &s * &x; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let s = i[0]; let x = Point::<f64, 1>::from([i[1]]);{ let y = s * x; o[0] = y[0]; }{ let y = &s * x; o[1] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 1, 1>::from([[i[1]]]);{ let y = s * x; o[0] = y[0][0]; }{ let y = s * &x; o[1] = y[0][0]; }{ let y = &s * x; o[2] = y[0][0]; }{ let y = &s * &x; o[3] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x2_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 1, 2>::from([[i[1]], [i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[1][0]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[1][0]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[1][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x3_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 1, 3>::from([[i[1]], [i[2]], [i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[1][0]; o[5] = y[2][0]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[1][0]; o[8] = y[2][0]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[1][0]; o[11] = y[2][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 1, 4>::from([[i[1]], [i[2]], [i[3]], [i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector2_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    let s = i[0]; let x = Vector::<f64, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = s * &x; o[2] = y[0]; o[3] = y[1]; }{ let y = &s * x; o[4] = y[0]; o[5] = y[1]; }{ let y = &s * &x; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point2_f64(i: &[f64; 3], o: &mut [f64; 4]) -> bool {
    let s = i[0]; let x = Point::<f64, 2>::from([i[1], i[2]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; }{ let y = &s * x; o[2] = y[0]; o[3] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x1_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 2, 1>::from([[i[1], i[2]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; }{ let y = s * &x; o[2] = y[0][0]; o[3] = y[0][1]; }{ let y = &s * x; o[4] = y[0][0]; o[5] = y[0][1]; }{ let y = &s * &x; o[6] = y[0][0]; o[7] = y[0][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 2, 2>::from([[i[1], i[2]], [i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 24]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 2, 3>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix2x4_f64(i: &[f64; 9], o: &mut [f64; 32]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 2, 4>::from([[i[1], i[2]], [i[3], i[4]], [i[5], i[6]], [i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; o[6] = y[3][0]; o[7] = y[3][1]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; o[12] = y[2][0]; o[13] = y[2][1]; o[14] = y[3][0]; o[15] = y[3][1]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[3][0]; o[23] = y[3][1]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; o[30] = y[3][0]; o[31] = y[3][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector3_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let s = i[0]; let x = Vector::<f64, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = s * &x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &s * x; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &s * &x; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_point3_f64(i: &[f64; 4], o: &mut [f64; 6]) -> bool {
    let s = i[0]; let x = Point::<f64, 3>::from([i[1], i[2], i[3]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &s * x; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x1_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 3, 1>::from([[i[1], i[2], i[3]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; }{ let y = s * &x; o[3] = y[0][0]; o[4] = y[0][1]; o[5] = y[0][2]; }{ let y = &s * x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; }{ let y = &s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 24]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 3, 2>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = s * &x; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &s * x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &s * &x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 36]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 3, 3>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = s * &x; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &s * x; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &s * &x; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix3x4_f64(i: &[f64; 13], o: &mut [f64; 48]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 3, 4>::from([[i[1], i[2], i[3]], [i[4], i[5], i[6]], [i[7], i[8], i[9]], [i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; o[9] = y[3][0]; o[10] = y[3][1]; o[11] = y[3][2]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; o[18] = y[2][0]; o[19] = y[2][1]; o[20] = y[2][2]; o[21] = y[3][0]; o[22] = y[3][1]; o[23] = y[3][2]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; o[30] = y[2][0]; o[31] = y[2][1]; o[32] = y[2][2]; o[33] = y[3][0]; o[34] = y[3][1]; o[35] = y[3][2]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; o[45] = y[3][0]; o[46] = y[3][1]; o[47] = y[3][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_vector4_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    let s = i[0]; let x = Vector::<f64, 4>::from([i[1], i[2], i[3], i[4]]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x1_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 4, 1>::from([[i[1], i[2], i[3], i[4]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; }{ let y = s * &x; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[0][2]; o[7] = y[0][3]; }{ let y = &s * x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; }{ let y = &s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 32]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 4, 2>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = s * &x; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &s * x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &s * &x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 48]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 4, 3>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = s * &x; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &s * x; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &s * &x; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 64]) -> bool {
    let s = i[0]; let x = Matrix::<f64, 4, 4>::from([[i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8]], [i[9], i[10], i[11], i[12]], [i[13], i[14], i[15], i[16]]]);{ let y = s * x; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = s * &x; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &s * x; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &s * &x; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_quaternion_f64(i: &[f64; 5], o: &mut [f64; 16]) -> bool {
    let s = i[0]; let x = Quaternion::<f64>::new(i[1], i[2], i[3], i[4]);{ let y = s * x; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = s * &x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &s * x; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &s * &x; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_mul_complex_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    let s = i[0]; let x = Complex::<f64>::new(i[1], i[2]);{ let y = s * x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s * &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s * x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s * &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_add_complex_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    let s = i[0]; let x = Complex::<f64>::new(i[1], i[2]);{ let y = s + x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s + &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s + x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s + &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_re_f64(i: &[f64; 3], o: &mut [f64; 4]) -> bool {
    let s = i[0]; let x = Complex::<f64>::new(i[1], i[2]);o[0] = (s - x).real();o[1] = (s - &x).real();o[2] = (&s - x).real();o[3] = (&s - &x).real(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_magnitude_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    let s = i[0]; let x = Complex::<f64>::new(i[1], i[2]);{ let y = (s - x).imaginary(); o[0] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; }{ let y = (s - &x).imaginary(); o[1] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; }{ let y = (&s - x).imaginary(); o[2] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; }{ let y = (&s - &x).imaginary(); o[3] = (y.to_bits() << 1 == i[2].to_bits() << 1) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_sub_complex_im_f64(i: &[f64; 3], o: &mut [f64; 4]) -> bool {
    let s = i[0]; let x = Complex::<f64>::new(i[1], i[2]);o[0] = (s - x).imaginary();o[1] = (s - &x).imaginary();o[2] = (&s - x).imaginary();o[3] = (&s - &x).imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C25_div_complex_f64(i: &[f64; 3], o: &mut [f64; 8]) -> bool {
    let s = i[0]; let x = Complex::<f64>::new(i[1], i[2]);{ let y = s / x; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = s / &x; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &s / x; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &s / &x; o[6] = y.real(); o[7] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_floor_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::floor(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_ceil_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::ceil(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_round_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::round(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_trunc_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::trunc(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sin_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::sin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_cos_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::cos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_tan_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::tan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_asin_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::asin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_acos_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::acos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_atan_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::atan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sinh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::sinh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_cosh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::cosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_tanh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::tanh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_asinh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::asinh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_acosh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::acosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_atanh_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::atanh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_log2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::log2(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_log10_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::log10(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sqrt_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::sqrt(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_cbrt_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::cbrt(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_exp_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::exp(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_exp2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::exp2(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_ln_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::ln(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_ln_1p_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::ln_1p(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_exp_m1_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::exp_m1(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_fract_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::fract(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_recip_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::recip(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sin_cos_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let (a, b) = <f32 as SimdScalarFloat>::sin_cos(i[0]); o[0] = a; o[1] = b; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sinh_cosh_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let (a, b) = <f32 as SimdScalarFloat>::sinh_cosh(i[0]); o[0] = a; o[1] = b; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_hypot_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::hypot(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_atan2_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::atan2(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powf_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powf(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_log_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::log(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_mul_add_f32(i: &[f32; 3], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::mul_add(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_0_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 0); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_1_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 1); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m1_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -1); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 2); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m2_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -2); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_3_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 3); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m3_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -3); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_4_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 4); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m4_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -4); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_5_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 5); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m5_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -5); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_6_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 6); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m6_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -6); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_7_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 7); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m7_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -7); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_8_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 8); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m8_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -8); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_9_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 9); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m9_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -9); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_10_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 10); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m10_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -10); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_11_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 11); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m11_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -11); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_12_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 12); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m12_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -12); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_13_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 13); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m13_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -13); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_14_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 14); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m14_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -14); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_15_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 15); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m15_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -15); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_16_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 16); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m16_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -16); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_17_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 17); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m17_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -17); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_18_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 18); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m18_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -18); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_19_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 19); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m19_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -19); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_20_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 20); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m20_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -20); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_21_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 21); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m21_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -21); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_22_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 22); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m22_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -22); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_23_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 23); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m23_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -23); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_24_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 24); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m24_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -24); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_31_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 31); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m31_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -31); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_32_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 32); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m32_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -32); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_33_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 33); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m33_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -33); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_63_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 63); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m63_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -63); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_64_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 64); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m64_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -64); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_100_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], 100); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m100_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::powi(i[0], -100); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_finite_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::is_finite(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_infinite_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::is_infinite(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_nan_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::is_nan(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_normal_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::is_normal(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_subnormal_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::is_subnormal(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_sign_positive_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_sign_negative_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f32 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_f32(i: &[f32; 1], o: &mut [u32; 1]) -> bool {
    o[0] = <f32 as SimdScalarSigned>::abs(i[0]).to_bits(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_f32(i: &[f32; 2], o: &mut [u32; 1]) -> bool {
    o[0] = <f32 as SimdScalarSigned>::copysign(i[0], i[1]).to_bits(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <f32 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_f32(i: &[f32; 3], o: &mut [f32; 1]) -> bool {
    if !(i[1] <= i[2]) { return true; } o[0] = <f32 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_constants_f32(i: &[f32; 1], o: &mut [f32; 17]) -> bool {
    o[0] = <f32 as SimdScalarFloat>::e(); o[1] = <f32 as SimdScalarFloat>::frac_1_pi(); o[2] = <f32 as SimdScalarFloat>::frac_1_sqrt_2(); o[3] = <f32 as SimdScalarFloat>::frac_2_pi(); o[4] = <f32 as SimdScalarFloat>::frac_2_sqrt_pi(); o[5] = <f32 as SimdScalarFloat>::frac_pi_2(); o[6] = <f32 as SimdScalarFloat>::frac_pi_3(); o[7] = <f32 as SimdScalarFloat>::frac_pi_4(); o[8] = <f32 as SimdScalarFloat>::frac_pi_6(); o[9] = <f32 as SimdScalarFloat>::frac_pi_8(); o[10] = <f32 as SimdScalarFloat>::ln_10(); o[11] = <f32 as SimdScalarFloat>::ln_2(); o[12] = <f32 as SimdScalarFloat>::log10_e(); o[13] = <f32 as SimdScalarFloat>::log2_e(); o[14] = <f32 as SimdScalarFloat>::pi(); o[15] = <f32 as SimdScalarFloat>::sqrt_2(); o[16] = <f32 as SimdScalarFloat>::two_pi(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_limits_f32(i: &[f32; 1], o: &mut [u32; 8]) -> bool {
    let v: [f32; 8] = [<f32 as SimdScalarFloat>::min_positive_value(), <f32 as SimdScalarFloat>::infinity(), <f32 as SimdScalarFloat>::neg_infinity(), <f32 as SimdScalarFloat>::neg_zero(), <f32 as SimdScalarFloat>::machine_epsilon(), <f32 as SimdScalarCmp>::default_epsilon(), <f32 as SimdScalarBounded>::min_value(), <f32 as SimdScalarBounded>::max_value()]; for k in 0..8 { o[k] = v[k].to_bits(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_nan_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = (<f32 as SimdScalarFloat>::nan() != <f32 as SimdScalarFloat>::nan()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_floor_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::floor(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_ceil_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::ceil(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_round_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::round(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_trunc_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::trunc(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sin_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::sin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_cos_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::cos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_tan_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::tan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_asin_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::asin(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_acos_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::acos(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_atan_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::atan(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sinh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::sinh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_cosh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::cosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_tanh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::tanh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_asinh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::asinh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_acosh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::acosh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_atanh_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::atanh(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_log2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::log2(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_log10_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::log10(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sqrt_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::sqrt(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_cbrt_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::cbrt(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_exp_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::exp(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_exp2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::exp2(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_ln_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::ln(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_ln_1p_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::ln_1p(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_exp_m1_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::exp_m1(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_fract_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::fract(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_recip_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::recip(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sin_cos_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let (a, b) = <f64 as SimdScalarFloat>::sin_cos(i[0]); o[0] = a; o[1] = b; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_sinh_cosh_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let (a, b) = <f64 as SimdScalarFloat>::sinh_cosh(i[0]); o[0] = a; o[1] = b; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_hypot_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::hypot(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_atan2_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::atan2(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powf_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powf(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_log_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::log(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_mul_add_f64(i: &[f64; 3], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::mul_add(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_0_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 0); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_1_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 1); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m1_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -1); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 2); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m2_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -2); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_3_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 3); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m3_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -3); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_4_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 4); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m4_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -4); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_5_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 5); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m5_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -5); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_6_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 6); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m6_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -6); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_7_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 7); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m7_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -7); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_8_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 8); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m8_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -8); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_9_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 9); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m9_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -9); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_10_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 10); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m10_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -10); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_11_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 11); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m11_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -11); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_12_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 12); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m12_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -12); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_13_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 13); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m13_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -13); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_14_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 14); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m14_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -14); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_15_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 15); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m15_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -15); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_16_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 16); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m16_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -16); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_17_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 17); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m17_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -17); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_18_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 18); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m18_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -18); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_19_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 19); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m19_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -19); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_20_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 20); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m20_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -20); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_21_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 21); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m21_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -21); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_22_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 22); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m22_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -22); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_23_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 23); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m23_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -23); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_24_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 24); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m24_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -24); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_31_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 31); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m31_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -31); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_32_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 32); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m32_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -32); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_33_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 33); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m33_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -33); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_63_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 63); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m63_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -63); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_64_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 64); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m64_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -64); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_100_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], 100); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_powi_m100_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::powi(i[0], -100); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_finite_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::is_finite(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_infinite_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::is_infinite(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_nan_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::is_nan(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_normal_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::is_normal(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_subnormal_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::is_subnormal(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_sign_positive_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_is_sign_negative_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = <f64 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_f64(i: &[f64; 1], o: &mut [u64; 1]) -> bool {
    o[0] = <f64 as SimdScalarSigned>::abs(i[0]).to_bits(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_f64(i: &[f64; 2], o: &mut [u64; 1]) -> bool {
    o[0] = <f64 as SimdScalarSigned>::copysign(i[0], i[1]).to_bits(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <f64 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_f64(i: &[f64; 3], o: &mut [f64; 1]) -> bool {
    if !(i[1] <= i[2]) { return true; } o[0] = <f64 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_constants_f64(i: &[f64; 1], o: &mut [f64; 17]) -> bool {
    o[0] = <f64 as SimdScalarFloat>::e(); o[1] = <f64 as SimdScalarFloat>::frac_1_pi(); o[2] = <f64 as SimdScalarFloat>::frac_1_sqrt_2(); o[3] = <f64 as SimdScalarFloat>::frac_2_pi(); o[4] = <f64 as SimdScalarFloat>::frac_2_sqrt_pi(); o[5] = <f64 as SimdScalarFloat>::frac_pi_2(); o[6] = <f64 as SimdScalarFloat>::frac_pi_3(); o[7] = <f64 as SimdScalarFloat>::frac_pi_4(); o[8] = <f64 as SimdScalarFloat>::frac_pi_6(); o[9] = <f64 as SimdScalarFloat>::frac_pi_8(); o[10] = <f64 as SimdScalarFloat>::ln_10(); o[11] = <f64 as SimdScalarFloat>::ln_2(); o[12] = <f64 as SimdScalarFloat>::log10_e(); o[13] = <f64 as SimdScalarFloat>::log2_e(); o[14] = <f64 as SimdScalarFloat>::pi(); o[15] = <f64 as SimdScalarFloat>::sqrt_2(); o[16] = <f64 as SimdScalarFloat>::two_pi(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_limits_f64(i: &[f64; 1], o: &mut [u64; 8]) -> bool {
    let v: [f64; 8] = [<f64 as SimdScalarFloat>::min_positive_value(), <f64 as SimdScalarFloat>::infinity(), <f64 as SimdScalarFloat>::neg_infinity(), <f64 as SimdScalarFloat>::neg_zero(), <f64 as SimdScalarFloat>::machine_epsilon(), <f64 as SimdScalarCmp>::default_epsilon(), <f64 as SimdScalarBounded>::min_value(), <f64 as SimdScalarBounded>::max_value()]; for k in 0..8 { o[k] = v[k].to_bits(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_nan_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = (<f64 as SimdScalarFloat>::nan() != <f64 as SimdScalarFloat>::nan()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signs_i8(i: &[i8; 1], o: &mut [u8; 2]) -> bool {
    o[0] = <i8 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; o[1] = <i8 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_i8(i: &[i8; 1], o: &mut [i8; 1]) -> bool {
    o[0] = <i8 as SimdScalarSigned>::abs(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_i8(i: &[i8; 1], o: &mut [i8; 1]) -> bool {
    o[0] = <i8 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_i8(i: &[i8; 2], o: &mut [i8; 1]) -> bool {
    o[0] = <i8 as SimdScalarSigned>::copysign(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_i8(i: &[i8; 2], o: &mut [i8; 1]) -> bool {
    o[0] = <i8 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_i8(i: &[i8; 2], o: &mut [i8; 1]) -> bool {
    o[0] = <i8 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_i8(i: &[i8; 3], o: &mut [i8; 1]) -> bool {
    if i[1] > i[2] { return true; } o[0] = <i8 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_bounds_i8(i: &[i8; 1], o: &mut [i8; 2]) -> bool {
    o[0] = <i8 as SimdScalarBounded>::min_value(); o[1] = <i8 as SimdScalarBounded>::max_value(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signs_i16(i: &[i16; 1], o: &mut [u8; 2]) -> bool {
    o[0] = <i16 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; o[1] = <i16 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_i16(i: &[i16; 1], o: &mut [i16; 1]) -> bool {
    o[0] = <i16 as SimdScalarSigned>::abs(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_i16(i: &[i16; 1], o: &mut [i16; 1]) -> bool {
    o[0] = <i16 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_i16(i: &[i16; 2], o: &mut [i16; 1]) -> bool {
    o[0] = <i16 as SimdScalarSigned>::copysign(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_i16(i: &[i16; 2], o: &mut [i16; 1]) -> bool {
    o[0] = <i16 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_i16(i: &[i16; 2], o: &mut [i16; 1]) -> bool {
    o[0] = <i16 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_i16(i: &[i16; 3], o: &mut [i16; 1]) -> bool {
    if i[1] > i[2] { return true; } o[0] = <i16 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_bounds_i16(i: &[i16; 1], o: &mut [i16; 2]) -> bool {
    o[0] = <i16 as SimdScalarBounded>::min_value(); o[1] = <i16 as SimdScalarBounded>::max_value(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signs_i32(i: &[i32; 1], o: &mut [u8; 2]) -> bool {
    o[0] = <i32 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; o[1] = <i32 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_i32(i: &[i32; 1], o: &mut [i32; 1]) -> bool {
    o[0] = <i32 as SimdScalarSigned>::abs(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_i32(i: &[i32; 1], o: &mut [i32; 1]) -> bool {
    o[0] = <i32 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_i32(i: &[i32; 2], o: &mut [i32; 1]) -> bool {
    o[0] = <i32 as SimdScalarSigned>::copysign(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_i32(i: &[i32; 2], o: &mut [i32; 1]) -> bool {
    o[0] = <i32 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_i32(i: &[i32; 2], o: &mut [i32; 1]) -> bool {
    o[0] = <i32 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_i32(i: &[i32; 3], o: &mut [i32; 1]) -> bool {
    if i[1] > i[2] { return true; } o[0] = <i32 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_bounds_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    o[0] = <i32 as SimdScalarBounded>::min_value(); o[1] = <i32 as SimdScalarBounded>::max_value(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signs_i64(i: &[i64; 1], o: &mut [u8; 2]) -> bool {
    o[0] = <i64 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; o[1] = <i64 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_i64(i: &[i64; 1], o: &mut [i64; 1]) -> bool {
    o[0] = <i64 as SimdScalarSigned>::abs(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_i64(i: &[i64; 1], o: &mut [i64; 1]) -> bool {
    o[0] = <i64 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_i64(i: &[i64; 2], o: &mut [i64; 1]) -> bool {
    o[0] = <i64 as SimdScalarSigned>::copysign(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_i64(i: &[i64; 2], o: &mut [i64; 1]) -> bool {
    o[0] = <i64 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_i64(i: &[i64; 2], o: &mut [i64; 1]) -> bool {
    o[0] = <i64 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_i64(i: &[i64; 3], o: &mut [i64; 1]) -> bool {
    if i[1] > i[2] { return true; } o[0] = <i64 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_bounds_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    o[0] = <i64 as SimdScalarBounded>::min_value(); o[1] = <i64 as SimdScalarBounded>::max_value(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signs_i128(i: &[i128; 1], o: &mut [u8; 2]) -> bool {
    o[0] = <i128 as SimdScalarSigned>::is_sign_positive(i[0]) as u8; o[1] = <i128 as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_i128(i: &[i128; 1], o: &mut [i128; 1]) -> bool {
    o[0] = <i128 as SimdScalarSigned>::abs(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_i128(i: &[i128; 1], o: &mut [i128; 1]) -> bool {
    o[0] = <i128 as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_i128(i: &[i128; 2], o: &mut [i128; 1]) -> bool {
    o[0] = <i128 as SimdScalarSigned>::copysign(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_i128(i: &[i128; 2], o: &mut [i128; 1]) -> bool {
    o[0] = <i128 as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_i128(i: &[i128; 2], o: &mut [i128; 1]) -> bool {
    o[0] = <i128 as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_i128(i: &[i128; 3], o: &mut [i128; 1]) -> bool {
    if i[1] > i[2] { return true; } o[0] = <i128 as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_bounds_i128(i: &[i128; 1], o: &mut [i128; 2]) -> bool {
    o[0] = <i128 as SimdScalarBounded>::min_value(); o[1] = <i128 as SimdScalarBounded>::max_value(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signs_isize(i: &[isize; 1], o: &mut [u8; 2]) -> bool {
    o[0] = <isize as SimdScalarSigned>::is_sign_positive(i[0]) as u8; o[1] = <isize as SimdScalarSigned>::is_sign_negative(i[0]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_abs_isize(i: &[isize; 1], o: &mut [isize; 1]) -> bool {
    o[0] = <isize as SimdScalarSigned>::abs(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_signum_isize(i: &[isize; 1], o: &mut [isize; 1]) -> bool {
    o[0] = <isize as SimdScalarSigned>::signum(i[0]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_copysign_isize(i: &[isize; 2], o: &mut [isize; 1]) -> bool {
    o[0] = <isize as SimdScalarSigned>::copysign(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_max_isize(i: &[isize; 2], o: &mut [isize; 1]) -> bool {
    o[0] = <isize as SimdScalarOrd>::max(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_min_isize(i: &[isize; 2], o: &mut [isize; 1]) -> bool {
    o[0] = <isize as SimdScalarOrd>::min(i[0], i[1]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_clamp_isize(i: &[isize; 3], o: &mut [isize; 1]) -> bool {
    if i[1] > i[2] { return true; } o[0] = <isize as SimdScalarOrd>::clamp(i[0], i[1], i[2]); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C24_bounds_isize(i: &[isize; 1], o: &mut [isize; 2]) -> bool {
    o[0] = <isize as SimdScalarBounded>::min_value(); o[1] = <isize as SimdScalarBounded>::max_value(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_acosh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).acosh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_acos_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).acos(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_cosh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).cosh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_cos_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).cos(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_sinh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).sinh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_sin_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).sin(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_asinh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).asinh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_asin_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).asin(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_tanh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).tanh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_tan_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).tan(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_atanh_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).atanh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_atan_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]).atan(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_classify_f32(i: &[f32; 2], o: &mut [u8; 3]) -> bool {
    let w = Complex::<f32>::new(i[0], i[1]); o[0] = w.is_nan() as u8; o[1] = w.is_infinite() as u8; o[2] = w.is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_radians_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Radians(i[0]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_degrees_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Degrees(i[0]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector1_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f32, 1>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector2_f32(i: &[f32; 2], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f32, 2>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector3_f32(i: &[f32; 3], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f32, 3>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector4_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f32, 4>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector5_f32(i: &[f32; 5], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f32, 5>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector9_f32(i: &[f32; 9], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f32, 9>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_quaternion_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Quaternion::<f32>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix1x1_f32(i: &[f32; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 1, 1>::from([[i[0]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix3x3_f32(i: &[f32; 9], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix4x4_f32(i: &[f32; 16], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix2x3_f32(i: &[f32; 6], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix3x2_f32(i: &[f32; 6], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix4x3_f32(i: &[f32; 12], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix1x4_f32(i: &[f32; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix5x3_f32(i: &[f32; 15], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f32, 5, 3>::from([[i[0], i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8], i[9]], [i[10], i[11], i[12], i[13], i[14]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_acosh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).acosh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_acos_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).acos(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_cosh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).cosh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_cos_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).cos(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_sinh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).sinh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_sin_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).sin(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_asinh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).asinh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_asin_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).asin(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_tanh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).tanh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_tan_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).tan(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_atanh_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).atanh(); o[0] = w.real(); o[1] = w.imaginary(); o[2] = (w.real()).abs(); o[3] = (w.imaginary()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_atan_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]).atan(); o[0] = -w.imaginary(); o[1] = w.real(); o[2] = (-w.imaginary()).abs(); o[3] = (w.real()).abs(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_classify_f64(i: &[f64; 2], o: &mut [u8; 3]) -> bool {
    let w = Complex::<f64>::new(i[0], i[1]); o[0] = w.is_nan() as u8; o[1] = w.is_infinite() as u8; o[2] = w.is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_radians_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Radians(i[0]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_degrees_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Degrees(i[0]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector1_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f64, 1>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector2_f64(i: &[f64; 2], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f64, 2>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector3_f64(i: &[f64; 3], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f64, 3>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector4_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f64, 4>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector5_f64(i: &[f64; 5], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f64, 5>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_vector9_f64(i: &[f64; 9], o: &mut [u8; 1]) -> bool {
    o[0] = Vector::<f64, 9>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_quaternion_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Quaternion::<f64>::from(*i).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix1x1_f64(i: &[f64; 1], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 1, 1>::from([[i[0]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix3x3_f64(i: &[f64; 9], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix4x4_f64(i: &[f64; 16], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix2x3_f64(i: &[f64; 6], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix3x2_f64(i: &[f64; 6], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix4x3_f64(i: &[f64; 12], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix1x4_f64(i: &[f64; 4], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C27_is_finite_matrix5x3_f64(i: &[f64; 15], o: &mut [u8; 1]) -> bool {
    o[0] = Matrix::<f64, 5, 3>::from([[i[0], i[1], i[2], i[3], i[4]], [i[5], i[6], i[7], i[8], i[9]], [i[10], i[11], i[12], i[13], i[14]]]).is_finite() as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_u8(i: &[u8; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<u8, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<u8, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u8_u8(i: &[u8; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<u8, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_u16(i: &[u8; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<u8, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<u8, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_u32(i: &[u8; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<u8, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<u8, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u8_u32(i: &[u8; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<u8, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_u64(i: &[u8; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<u8, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<u8, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u8_u64(i: &[u8; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<u8, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_u128(i: &[u8; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<u8, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<u8, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_usize(i: &[u8; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<u8, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<u8, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_i8(i: &[u8; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<u8, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<u8, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u8_i8(i: &[u8; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<u8, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_i16(i: &[u8; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<u8, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<u8, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_i32(i: &[u8; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<u8, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<u8, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u8_i32(i: &[u8; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<u8, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_i64(i: &[u8; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<u8, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<u8, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u8_i64(i: &[u8; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<u8, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_i128(i: &[u8; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<u8, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<u8, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_isize(i: &[u8; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<u8, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<u8, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_f32(i: &[u8; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<u8, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<u8, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u8_f64(i: &[u8; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<u8, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<u8, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_u8(i: &[u16; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<u16, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<u16, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u16_u8(i: &[u16; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<u16, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_u16(i: &[u16; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<u16, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<u16, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_u32(i: &[u16; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<u16, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<u16, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u16_u32(i: &[u16; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<u16, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_u64(i: &[u16; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<u16, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<u16, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u16_u64(i: &[u16; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<u16, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_u128(i: &[u16; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<u16, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<u16, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_usize(i: &[u16; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<u16, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<u16, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_i8(i: &[u16; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<u16, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<u16, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u16_i8(i: &[u16; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<u16, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_i16(i: &[u16; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<u16, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<u16, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_i32(i: &[u16; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<u16, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<u16, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u16_i32(i: &[u16; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<u16, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_i64(i: &[u16; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<u16, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<u16, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u16_i64(i: &[u16; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<u16, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_i128(i: &[u16; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<u16, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<u16, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_isize(i: &[u16; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<u16, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<u16, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_f32(i: &[u16; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<u16, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<u16, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u16_f64(i: &[u16; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<u16, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<u16, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_u8(i: &[u32; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<u32, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<u32, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u32_u8(i: &[u32; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<u32, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_u16(i: &[u32; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<u32, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<u32, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_u32(i: &[u32; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<u32, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<u32, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u32_u32(i: &[u32; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<u32, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_u64(i: &[u32; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<u32, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<u32, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u32_u64(i: &[u32; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<u32, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_u128(i: &[u32; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<u32, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<u32, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_usize(i: &[u32; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<u32, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<u32, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_i8(i: &[u32; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<u32, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<u32, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u32_i8(i: &[u32; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<u32, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_i16(i: &[u32; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<u32, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<u32, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_i32(i: &[u32; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<u32, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<u32, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u32_i32(i: &[u32; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<u32, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_i64(i: &[u32; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<u32, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<u32, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u32_i64(i: &[u32; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<u32, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_i128(i: &[u32; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<u32, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<u32, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_isize(i: &[u32; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<u32, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<u32, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_f32(i: &[u32; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<u32, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<u32, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u32_f64(i: &[u32; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<u32, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<u32, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_u8(i: &[u64; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<u64, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<u64, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u64_u8(i: &[u64; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<u64, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_u16(i: &[u64; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<u64, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<u64, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_u32(i: &[u64; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<u64, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<u64, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u64_u32(i: &[u64; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<u64, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_u64(i: &[u64; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<u64, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<u64, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u64_u64(i: &[u64; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<u64, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_u128(i: &[u64; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<u64, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<u64, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_usize(i: &[u64; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<u64, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<u64, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_i8(i: &[u64; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<u64, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<u64, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u64_i8(i: &[u64; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<u64, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_i16(i: &[u64; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<u64, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<u64, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_i32(i: &[u64; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<u64, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<u64, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u64_i32(i: &[u64; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<u64, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_i64(i: &[u64; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<u64, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<u64, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u64_i64(i: &[u64; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<u64, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_i128(i: &[u64; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<u64, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<u64, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_isize(i: &[u64; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<u64, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<u64, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_f32(i: &[u64; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<u64, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<u64, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u64_f64(i: &[u64; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<u64, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<u64, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_u8(i: &[u128; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<u128, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<u128, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u128_u8(i: &[u128; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<u128, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_u16(i: &[u128; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<u128, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<u128, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_u32(i: &[u128; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<u128, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<u128, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u128_u32(i: &[u128; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<u128, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_u64(i: &[u128; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<u128, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<u128, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u128_u64(i: &[u128; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<u128, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_u128(i: &[u128; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<u128, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<u128, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_usize(i: &[u128; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<u128, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<u128, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_i8(i: &[u128; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<u128, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<u128, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u128_i8(i: &[u128; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<u128, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_i16(i: &[u128; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<u128, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<u128, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_i32(i: &[u128; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<u128, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<u128, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u128_i32(i: &[u128; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<u128, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_i64(i: &[u128; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<u128, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<u128, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_u128_i64(i: &[u128; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<u128, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_i128(i: &[u128; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<u128, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<u128, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_isize(i: &[u128; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<u128, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<u128, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_f32(i: &[u128; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<u128, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<u128, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_u128_f64(i: &[u128; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<u128, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<u128, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_u8(i: &[usize; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<usize, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<usize, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_usize_u8(i: &[usize; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<usize, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_u16(i: &[usize; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<usize, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<usize, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_u32(i: &[usize; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<usize, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<usize, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_usize_u32(i: &[usize; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<usize, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_u64(i: &[usize; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<usize, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<usize, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_usize_u64(i: &[usize; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<usize, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_u128(i: &[usize; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<usize, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<usize, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_usize(i: &[usize; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<usize, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<usize, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_i8(i: &[usize; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<usize, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<usize, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_usize_i8(i: &[usize; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<usize, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_i16(i: &[usize; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<usize, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<usize, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_i32(i: &[usize; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<usize, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<usize, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_usize_i32(i: &[usize; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<usize, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_i64(i: &[usize; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<usize, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<usize, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_usize_i64(i: &[usize; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<usize, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_i128(i: &[usize; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<usize, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<usize, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_isize(i: &[usize; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<usize, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<usize, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_f32(i: &[usize; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<usize, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<usize, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_usize_f64(i: &[usize; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<usize, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<usize, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_u8(i: &[i8; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<i8, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<i8, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i8_u8(i: &[i8; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<i8, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_u16(i: &[i8; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<i8, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<i8, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_u32(i: &[i8; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<i8, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<i8, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i8_u32(i: &[i8; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<i8, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_u64(i: &[i8; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<i8, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<i8, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i8_u64(i: &[i8; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<i8, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_u128(i: &[i8; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<i8, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<i8, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_usize(i: &[i8; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<i8, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<i8, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_i8(i: &[i8; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<i8, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<i8, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i8_i8(i: &[i8; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<i8, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_i16(i: &[i8; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<i8, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<i8, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_i32(i: &[i8; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<i8, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<i8, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i8_i32(i: &[i8; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<i8, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_i64(i: &[i8; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<i8, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<i8, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i8_i64(i: &[i8; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<i8, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_i128(i: &[i8; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<i8, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<i8, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_isize(i: &[i8; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<i8, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<i8, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_f32(i: &[i8; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<i8, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<i8, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i8_f64(i: &[i8; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<i8, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<i8, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_u8(i: &[i16; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<i16, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<i16, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i16_u8(i: &[i16; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<i16, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_u16(i: &[i16; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<i16, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<i16, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_u32(i: &[i16; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<i16, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<i16, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i16_u32(i: &[i16; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<i16, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_u64(i: &[i16; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<i16, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<i16, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i16_u64(i: &[i16; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<i16, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_u128(i: &[i16; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<i16, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<i16, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_usize(i: &[i16; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<i16, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<i16, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_i8(i: &[i16; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<i16, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<i16, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i16_i8(i: &[i16; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<i16, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_i16(i: &[i16; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<i16, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<i16, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_i32(i: &[i16; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<i16, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<i16, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i16_i32(i: &[i16; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<i16, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_i64(i: &[i16; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<i16, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<i16, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i16_i64(i: &[i16; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<i16, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_i128(i: &[i16; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<i16, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<i16, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_isize(i: &[i16; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<i16, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<i16, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_f32(i: &[i16; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<i16, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<i16, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i16_f64(i: &[i16; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<i16, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<i16, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_u8(i: &[i32; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<i32, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<i32, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i32_u8(i: &[i32; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<i32, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_u16(i: &[i32; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<i32, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<i32, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_u32(i: &[i32; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<i32, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<i32, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i32_u32(i: &[i32; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<i32, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_u64(i: &[i32; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<i32, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<i32, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i32_u64(i: &[i32; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<i32, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_u128(i: &[i32; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<i32, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<i32, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_usize(i: &[i32; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<i32, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<i32, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_i8(i: &[i32; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<i32, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<i32, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i32_i8(i: &[i32; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<i32, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_i16(i: &[i32; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<i32, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<i32, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_i32(i: &[i32; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<i32, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<i32, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i32_i32(i: &[i32; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<i32, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_i64(i: &[i32; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<i32, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<i32, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i32_i64(i: &[i32; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<i32, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_i128(i: &[i32; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<i32, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<i32, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_isize(i: &[i32; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<i32, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<i32, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_f32(i: &[i32; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<i32, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<i32, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i32_f64(i: &[i32; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<i32, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<i32, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_u8(i: &[i64; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<i64, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<i64, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i64_u8(i: &[i64; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<i64, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_u16(i: &[i64; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<i64, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<i64, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_u32(i: &[i64; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<i64, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<i64, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i64_u32(i: &[i64; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<i64, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_u64(i: &[i64; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<i64, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<i64, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i64_u64(i: &[i64; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<i64, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_u128(i: &[i64; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<i64, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<i64, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_usize(i: &[i64; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<i64, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<i64, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_i8(i: &[i64; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<i64, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<i64, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i64_i8(i: &[i64; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<i64, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_i16(i: &[i64; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<i64, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<i64, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_i32(i: &[i64; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<i64, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<i64, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i64_i32(i: &[i64; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<i64, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_i64(i: &[i64; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<i64, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<i64, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i64_i64(i: &[i64; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<i64, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_i128(i: &[i64; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<i64, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<i64, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_isize(i: &[i64; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<i64, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<i64, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_f32(i: &[i64; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<i64, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<i64, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i64_f64(i: &[i64; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<i64, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<i64, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_u8(i: &[i128; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<i128, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<i128, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i128_u8(i: &[i128; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<i128, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_u16(i: &[i128; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<i128, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<i128, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_u32(i: &[i128; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<i128, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<i128, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i128_u32(i: &[i128; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<i128, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_u64(i: &[i128; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<i128, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<i128, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i128_u64(i: &[i128; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<i128, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_u128(i: &[i128; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<i128, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<i128, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_usize(i: &[i128; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<i128, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<i128, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_i8(i: &[i128; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<i128, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<i128, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i128_i8(i: &[i128; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<i128, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_i16(i: &[i128; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<i128, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<i128, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_i32(i: &[i128; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<i128, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<i128, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i128_i32(i: &[i128; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<i128, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_i64(i: &[i128; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<i128, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<i128, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_i128_i64(i: &[i128; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<i128, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_i128(i: &[i128; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<i128, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<i128, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_isize(i: &[i128; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<i128, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<i128, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_f32(i: &[i128; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<i128, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<i128, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_i128_f64(i: &[i128; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<i128, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<i128, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_u8(i: &[isize; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<isize, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<isize, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_isize_u8(i: &[isize; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<isize, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_u16(i: &[isize; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<isize, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<isize, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_u32(i: &[isize; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<isize, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<isize, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_isize_u32(i: &[isize; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<isize, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_u64(i: &[isize; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<isize, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<isize, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_isize_u64(i: &[isize; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<isize, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_u128(i: &[isize; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<isize, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<isize, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_usize(i: &[isize; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<isize, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<isize, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_i8(i: &[isize; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<isize, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<isize, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_isize_i8(i: &[isize; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<isize, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_i16(i: &[isize; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<isize, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<isize, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_i32(i: &[isize; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<isize, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<isize, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_isize_i32(i: &[isize; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<isize, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_i64(i: &[isize; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<isize, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<isize, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_isize_i64(i: &[isize; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<isize, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_i128(i: &[isize; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<isize, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<isize, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_isize(i: &[isize; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<isize, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<isize, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_f32(i: &[isize; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<isize, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<isize, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_isize_f64(i: &[isize; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<isize, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<isize, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_u8(i: &[f32; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<f32, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<f32, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f32_u8(i: &[f32; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<f32, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_u16(i: &[f32; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<f32, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<f32, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_u32(i: &[f32; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<f32, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<f32, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f32_u32(i: &[f32; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<f32, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_u64(i: &[f32; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<f32, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<f32, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f32_u64(i: &[f32; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<f32, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_u128(i: &[f32; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<f32, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<f32, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_usize(i: &[f32; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<f32, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<f32, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_i8(i: &[f32; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<f32, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<f32, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f32_i8(i: &[f32; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<f32, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_i16(i: &[f32; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<f32, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<f32, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_i32(i: &[f32; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<f32, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<f32, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f32_i32(i: &[f32; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<f32, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_i64(i: &[f32; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<f32, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<f32, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f32_i64(i: &[f32; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<f32, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_i128(i: &[f32; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<f32, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<f32, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_isize(i: &[f32; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<f32, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<f32, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_f32(i: &[f32; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<f32, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<f32, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f32_f64(i: &[f32; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<f32, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<f32, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_u8(i: &[f64; 1], o: &mut [u8; 3]) -> bool {
    match try_cast::<f64, u8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u8; o[2] = cast::<f64, u8>(i[0]); } None => { o[1] = 0 as u8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f64_u8(i: &[f64; 1], o: &mut [u8; 3]) -> bool {
    o[0] = cast::<f64, u8>(i[0]); o[1] = 1 as u8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_u16(i: &[f64; 1], o: &mut [u16; 3]) -> bool {
    match try_cast::<f64, u16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u16; o[2] = cast::<f64, u16>(i[0]); } None => { o[1] = 0 as u16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_u32(i: &[f64; 1], o: &mut [u32; 3]) -> bool {
    match try_cast::<f64, u32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u32; o[2] = cast::<f64, u32>(i[0]); } None => { o[1] = 0 as u32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f64_u32(i: &[f64; 1], o: &mut [u32; 3]) -> bool {
    o[0] = cast::<f64, u32>(i[0]); o[1] = 1 as u32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_u64(i: &[f64; 1], o: &mut [u64; 3]) -> bool {
    match try_cast::<f64, u64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u64; o[2] = cast::<f64, u64>(i[0]); } None => { o[1] = 0 as u64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f64_u64(i: &[f64; 1], o: &mut [u64; 3]) -> bool {
    o[0] = cast::<f64, u64>(i[0]); o[1] = 1 as u64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_u128(i: &[f64; 1], o: &mut [u128; 3]) -> bool {
    match try_cast::<f64, u128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as u128; o[2] = cast::<f64, u128>(i[0]); } None => { o[1] = 0 as u128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_usize(i: &[f64; 1], o: &mut [usize; 3]) -> bool {
    match try_cast::<f64, usize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as usize; o[2] = cast::<f64, usize>(i[0]); } None => { o[1] = 0 as usize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_i8(i: &[f64; 1], o: &mut [i8; 3]) -> bool {
    match try_cast::<f64, i8>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i8; o[2] = cast::<f64, i8>(i[0]); } None => { o[1] = 0 as i8; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f64_i8(i: &[f64; 1], o: &mut [i8; 3]) -> bool {
    o[0] = cast::<f64, i8>(i[0]); o[1] = 1 as i8; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_i16(i: &[f64; 1], o: &mut [i16; 3]) -> bool {
    match try_cast::<f64, i16>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i16; o[2] = cast::<f64, i16>(i[0]); } None => { o[1] = 0 as i16; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_i32(i: &[f64; 1], o: &mut [i32; 3]) -> bool {
    match try_cast::<f64, i32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i32; o[2] = cast::<f64, i32>(i[0]); } None => { o[1] = 0 as i32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f64_i32(i: &[f64; 1], o: &mut [i32; 3]) -> bool {
    o[0] = cast::<f64, i32>(i[0]); o[1] = 1 as i32; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_i64(i: &[f64; 1], o: &mut [i64; 3]) -> bool {
    match try_cast::<f64, i64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i64; o[2] = cast::<f64, i64>(i[0]); } None => { o[1] = 0 as i64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_or_panic_f64_i64(i: &[f64; 1], o: &mut [i64; 3]) -> bool {
    o[0] = cast::<f64, i64>(i[0]); o[1] = 1 as i64; o[2] = o[0]; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_i128(i: &[f64; 1], o: &mut [i128; 3]) -> bool {
    match try_cast::<f64, i128>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as i128; o[2] = cast::<f64, i128>(i[0]); } None => { o[1] = 0 as i128; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_isize(i: &[f64; 1], o: &mut [isize; 3]) -> bool {
    match try_cast::<f64, isize>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as isize; o[2] = cast::<f64, isize>(i[0]); } None => { o[1] = 0 as isize; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_f32(i: &[f64; 1], o: &mut [f32; 3]) -> bool {
    match try_cast::<f64, f32>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f32; o[2] = cast::<f64, f32>(i[0]); } None => { o[1] = 0 as f32; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C08_cast_f64_f64(i: &[f64; 1], o: &mut [f64; 3]) -> bool {
    match try_cast::<f64, f64>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as f64; o[2] = cast::<f64, f64>(i[0]); } None => { o[1] = 0 as f64; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point2_u8(i: &[u8; 3], o: &mut [u8; 6]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point2_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point3_u8(i: &[u8; 4], o: &mut [u8; 9]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point3_u8(i: &[u8; 6], o: &mut [u8; 18]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0][0]; }{ let y = &x * s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; }{ let y = &x / s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; }{ let y = &x % s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([i[0]]); let z = Matrix::<u8, 1, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; }{ let y = x.clone() + &z; o[1] = y[0][0]; }{ let y = &x + z.clone(); o[2] = y[0][0]; }{ let y = &x + &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 6]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([i[0]]); let z = Matrix::<u8, 1, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; }{ let y = x.clone() - &z; o[1] = y[0][0]; }{ let y = &x - z.clone(); o[2] = y[0][0]; }{ let y = &x - &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x2_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x2_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u8, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x2_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u8, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 27]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x * s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 27]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x / s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x3_u8(i: &[u8; 10], o: &mut [u8; 27]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x % s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x3_u8(i: &[u8; 18], o: &mut [u8; 54]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<u8, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() + &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x + z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x + &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x3_u8(i: &[u8; 18], o: &mut [u8; 54]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<u8, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() - &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x - z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x - &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 48]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x * s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 48]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x / s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x4_u8(i: &[u8; 17], o: &mut [u8; 48]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x % s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x4_u8(i: &[u8; 32], o: &mut [u8; 96]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<u8, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() + &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x + z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x + &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x4_u8(i: &[u8; 32], o: &mut [u8; 96]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<u8, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() - &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x - z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x - &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x3_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x3_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u8, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x3_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u8, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x2_u8(i: &[u8; 7], o: &mut [u8; 18]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x2_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u8, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x2_u8(i: &[u8; 12], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u8, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x * s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x / s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x3_u8(i: &[u8; 13], o: &mut [u8; 36]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x % s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x3_u8(i: &[u8; 24], o: &mut [u8; 72]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<u8, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x + z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x + &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x3_u8(i: &[u8; 24], o: &mut [u8; 72]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<u8, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x - z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x - &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x4_u8(i: &[u8; 5], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u8, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x4_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u8, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x * s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x / s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x2_u8(i: &[u8; 9], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x % s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x2_u8(i: &[u8; 16], o: &mut [u8; 48]) -> bool {
    let x = Matrix::<u8, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<u8, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() + &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x + z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x + &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x2_u8(i: &[u8; 16], o: &mut [u8; 48]) -> bool {
    let x = Matrix::<u8, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<u8, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() - &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x - z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x - &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_mul_scalar_quaternion_u8(i: &[u8; 5], o: &mut [u8; 20]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() * &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x * &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_div_scalar_quaternion_u8(i: &[u8; 5], o: &mut [u8; 20]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() / &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x / &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_rem_scalar_quaternion_u8(i: &[u8; 5], o: &mut [u8; 20]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() % &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x % &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_add_quaternion_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u8>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_sub_quaternion_u8(i: &[u8; 8], o: &mut [u8; 24]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u8>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_mul_scalar_complex_u8(i: &[u8; 3], o: &mut [u8; 10]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() * s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x * s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() * &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x * &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_scalar_complex_u8(i: &[u8; 3], o: &mut [u8; 10]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x / s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() / &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x / &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_rem_scalar_complex_u8(i: &[u8; 3], o: &mut [u8; 10]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x % s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() % &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x % &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_add_complex_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x.clone() + z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() + &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x + z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x + &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_sub_complex_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x.clone() - z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() - &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x - z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x - &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Vector::<i16, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Vector::<i16, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Vector::<i16, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    let x = Vector::<i16, 1>::from([i[0]]); let z = Vector::<i16, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    let x = Vector::<i16, 1>::from([i[0]]); let z = Vector::<i16, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let x = Vector::<i16, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let x = Vector::<i16, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let x = Vector::<i16, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Vector::<i16, 2>::from([i[0], i[1]]); let z = Vector::<i16, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Vector::<i16, 2>::from([i[0], i[1]]); let z = Vector::<i16, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let x = Vector::<i16, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let x = Vector::<i16, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let x = Vector::<i16, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    let x = Vector::<i16, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i16, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    let x = Vector::<i16, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i16, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Vector::<i16, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Vector::<i16, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Vector::<i16, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Vector::<i16, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i16, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Vector::<i16, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i16, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Point::<i16, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Point::<i16, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Point::<i16, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    let x = Point::<i16, 1>::from([i[0]]); let z = Vector::<i16, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    let x = Point::<i16, 1>::from([i[0]]); let z = Vector::<i16, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let x = Point::<i16, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let x = Point::<i16, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point2_i16(i: &[i16; 3], o: &mut [i16; 6]) -> bool {
    let x = Point::<i16, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Point::<i16, 2>::from([i[0], i[1]]); let z = Vector::<i16, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point2_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Point::<i16, 2>::from([i[0], i[1]]); let z = Vector::<i16, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let x = Point::<i16, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let x = Point::<i16, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point3_i16(i: &[i16; 4], o: &mut [i16; 9]) -> bool {
    let x = Point::<i16, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    let x = Point::<i16, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i16, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point3_i16(i: &[i16; 6], o: &mut [i16; 18]) -> bool {
    let x = Point::<i16, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i16, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Matrix::<i16, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0][0]; }{ let y = &x * s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Matrix::<i16, 1, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; }{ let y = &x / s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 3]) -> bool {
    let x = Matrix::<i16, 1, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; }{ let y = &x % s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    let x = Matrix::<i16, 1, 1>::from([i[0]]); let z = Matrix::<i16, 1, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; }{ let y = x.clone() + &z; o[1] = y[0][0]; }{ let y = &x + z.clone(); o[2] = y[0][0]; }{ let y = &x + &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x1_i16(i: &[i16; 2], o: &mut [i16; 6]) -> bool {
    let x = Matrix::<i16, 1, 1>::from([i[0]]); let z = Matrix::<i16, 1, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; }{ let y = x.clone() - &z; o[1] = y[0][0]; }{ let y = &x - z.clone(); o[2] = y[0][0]; }{ let y = &x - &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Matrix::<i16, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Matrix::<i16, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x2_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Matrix::<i16, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x2_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i16, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x2_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i16, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 27]) -> bool {
    let x = Matrix::<i16, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x * s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 27]) -> bool {
    let x = Matrix::<i16, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x / s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x3_i16(i: &[i16; 10], o: &mut [i16; 27]) -> bool {
    let x = Matrix::<i16, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x % s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x3_i16(i: &[i16; 18], o: &mut [i16; 54]) -> bool {
    let x = Matrix::<i16, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<i16, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() + &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x + z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x + &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x3_i16(i: &[i16; 18], o: &mut [i16; 54]) -> bool {
    let x = Matrix::<i16, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<i16, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() - &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x - z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x - &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 48]) -> bool {
    let x = Matrix::<i16, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x * s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 48]) -> bool {
    let x = Matrix::<i16, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x / s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x4_i16(i: &[i16; 17], o: &mut [i16; 48]) -> bool {
    let x = Matrix::<i16, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x % s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x4_i16(i: &[i16; 32], o: &mut [i16; 96]) -> bool {
    let x = Matrix::<i16, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<i16, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() + &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x + z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x + &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x4_i16(i: &[i16; 32], o: &mut [i16; 96]) -> bool {
    let x = Matrix::<i16, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<i16, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() - &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x - z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x - &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let x = Matrix::<i16, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let x = Matrix::<i16, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x3_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let x = Matrix::<i16, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x3_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i16, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x3_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i16, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let x = Matrix::<i16, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let x = Matrix::<i16, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x2_i16(i: &[i16; 7], o: &mut [i16; 18]) -> bool {
    let x = Matrix::<i16, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x2_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i16, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x2_i16(i: &[i16; 12], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i16, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x * s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x / s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x3_i16(i: &[i16; 13], o: &mut [i16; 36]) -> bool {
    let x = Matrix::<i16, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x % s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x3_i16(i: &[i16; 24], o: &mut [i16; 72]) -> bool {
    let x = Matrix::<i16, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<i16, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x + z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x + &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x3_i16(i: &[i16; 24], o: &mut [i16; 72]) -> bool {
    let x = Matrix::<i16, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<i16, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x - z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x - &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Matrix::<i16, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Matrix::<i16, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x4_i16(i: &[i16; 5], o: &mut [i16; 12]) -> bool {
    let x = Matrix::<i16, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i16, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x4_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i16, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x * s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x / s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x2_i16(i: &[i16; 9], o: &mut [i16; 24]) -> bool {
    let x = Matrix::<i16, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x % s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x2_i16(i: &[i16; 16], o: &mut [i16; 48]) -> bool {
    let x = Matrix::<i16, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<i16, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() + &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x + z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x + &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x2_i16(i: &[i16; 16], o: &mut [i16; 48]) -> bool {
    let x = Matrix::<i16, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<i16, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() - &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x - z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x - &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_mul_scalar_quaternion_i16(i: &[i16; 5], o: &mut [i16; 20]) -> bool {
    let x = Quaternion::<i16>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() * &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x * &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_div_scalar_quaternion_i16(i: &[i16; 5], o: &mut [i16; 20]) -> bool {
    let x = Quaternion::<i16>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() / &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x / &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_rem_scalar_quaternion_i16(i: &[i16; 5], o: &mut [i16; 20]) -> bool {
    let x = Quaternion::<i16>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() % &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x % &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_add_quaternion_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Quaternion::<i16>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i16>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_sub_quaternion_i16(i: &[i16; 8], o: &mut [i16; 24]) -> bool {
    let x = Quaternion::<i16>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i16>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_mul_scalar_complex_i16(i: &[i16; 3], o: &mut [i16; 10]) -> bool {
    let x = Complex::<i16>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() * s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x * s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() * &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x * &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_scalar_complex_i16(i: &[i16; 3], o: &mut [i16; 10]) -> bool {
    let x = Complex::<i16>::new(i[0], i[1]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x / s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() / &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x / &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_rem_scalar_complex_i16(i: &[i16; 3], o: &mut [i16; 10]) -> bool {
    let x = Complex::<i16>::new(i[0], i[1]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x % s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() % &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x % &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_add_complex_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Complex::<i16>::new(i[0], i[1]); let z = Complex::<i16>::new(i[2], i[3]);{ let y = x.clone() + z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() + &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x + z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x + &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_sub_complex_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Complex::<i16>::new(i[0], i[1]); let z = Complex::<i16>::new(i[2], i[3]);{ let y = x.clone() - z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() - &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x - z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x - &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_complex_i16(i: &[i16; 4], o: &mut [i16; 12]) -> bool {
    let x = Complex::<i16>::new(i[0], i[1]); let z = Complex::<i16>::new(i[2], i[3]);let d = (i[2].wrapping_mul(i[2])).wrapping_add(i[3].wrapping_mul(i[3])); if d == 0 || d == -1 { return true; }{ let y = x / z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x / &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x / z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x / &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y /= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y /= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point2_i32(i: &[i32; 3], o: &mut [i32; 6]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point2_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point3_i32(i: &[i32; 4], o: &mut [i32; 9]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point3_i32(i: &[i32; 6], o: &mut [i32; 18]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0][0]; }{ let y = &x * s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; }{ let y = &x / s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([i[0]]); let s = i[1];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; }{ let y = &x % s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([i[0]]); let z = Matrix::<i32, 1, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; }{ let y = x.clone() + &z; o[1] = y[0][0]; }{ let y = &x + z.clone(); o[2] = y[0][0]; }{ let y = &x + &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x1_i32(i: &[i32; 2], o: &mut [i32; 6]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([i[0]]); let z = Matrix::<i32, 1, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; }{ let y = x.clone() - &z; o[1] = y[0][0]; }{ let y = &x - z.clone(); o[2] = y[0][0]; }{ let y = &x - &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x2_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x2_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i32, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x2_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i32, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 27]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x * s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 27]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x / s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x3_i32(i: &[i32; 10], o: &mut [i32; 27]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x % s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x3_i32(i: &[i32; 18], o: &mut [i32; 54]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<i32, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() + &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x + z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x + &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x3_i32(i: &[i32; 18], o: &mut [i32; 54]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<i32, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() - &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x - z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x - &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 48]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x * s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 48]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x / s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x4_i32(i: &[i32; 17], o: &mut [i32; 48]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x % s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x4_i32(i: &[i32; 32], o: &mut [i32; 96]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<i32, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() + &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x + z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x + &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x4_i32(i: &[i32; 32], o: &mut [i32; 96]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<i32, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() - &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x - z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x - &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x3_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x3_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i32, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x3_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i32, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x2_i32(i: &[i32; 7], o: &mut [i32; 18]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x2_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i32, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x2_i32(i: &[i32; 12], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<i32, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x * s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x / s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x3_i32(i: &[i32; 13], o: &mut [i32; 36]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x % s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x3_i32(i: &[i32; 24], o: &mut [i32; 72]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<i32, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x + z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x + &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x3_i32(i: &[i32; 24], o: &mut [i32; 72]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<i32, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x - z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x - &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x4_i32(i: &[i32; 5], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i32, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x4_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<i32, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x * s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x / s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x2_i32(i: &[i32; 9], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x % s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x2_i32(i: &[i32; 16], o: &mut [i32; 48]) -> bool {
    let x = Matrix::<i32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<i32, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() + &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x + z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x + &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x2_i32(i: &[i32; 16], o: &mut [i32; 48]) -> bool {
    let x = Matrix::<i32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<i32, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() - &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x - z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x - &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_mul_scalar_quaternion_i32(i: &[i32; 5], o: &mut [i32; 20]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() * &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x * &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_div_scalar_quaternion_i32(i: &[i32; 5], o: &mut [i32; 20]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() / &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x / &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_rem_scalar_quaternion_i32(i: &[i32; 5], o: &mut [i32; 20]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() % &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x % &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_add_quaternion_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_sub_quaternion_i32(i: &[i32; 8], o: &mut [i32; 24]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_mul_scalar_complex_i32(i: &[i32; 3], o: &mut [i32; 10]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() * s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x * s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() * &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x * &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_scalar_complex_i32(i: &[i32; 3], o: &mut [i32; 10]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() / s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x / s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() / &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x / &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_rem_scalar_complex_i32(i: &[i32; 3], o: &mut [i32; 10]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let s = i[2];if s == 0 || s == -1 { return true; }{ let y = x.clone() % s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x % s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() % &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x % &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_add_complex_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x.clone() + z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() + &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x + z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x + &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_sub_complex_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x.clone() - z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() - &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x - z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x - &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_complex_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);let d = (i[2].wrapping_mul(i[2])).wrapping_add(i[3].wrapping_mul(i[3])); if d == 0 || d == -1 { return true; }{ let y = x / z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x / &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x / z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x / &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y /= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y /= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Vector::<u64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Vector::<u64, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Vector::<u64, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    let x = Vector::<u64, 1>::from([i[0]]); let z = Vector::<u64, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    let x = Vector::<u64, 1>::from([i[0]]); let z = Vector::<u64, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let x = Vector::<u64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let x = Vector::<u64, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let x = Vector::<u64, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let x = Vector::<u64, 2>::from([i[0], i[1]]); let z = Vector::<u64, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let x = Vector::<u64, 2>::from([i[0], i[1]]); let z = Vector::<u64, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let x = Vector::<u64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let x = Vector::<u64, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let x = Vector::<u64, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    let x = Vector::<u64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    let x = Vector::<u64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Vector::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Vector::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Vector::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Vector::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Vector::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Point::<u64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Point::<u64, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Point::<u64, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    let x = Point::<u64, 1>::from([i[0]]); let z = Vector::<u64, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    let x = Point::<u64, 1>::from([i[0]]); let z = Vector::<u64, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let x = Point::<u64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let x = Point::<u64, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point2_u64(i: &[u64; 3], o: &mut [u64; 6]) -> bool {
    let x = Point::<u64, 2>::from([i[0], i[1]]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let x = Point::<u64, 2>::from([i[0], i[1]]); let z = Vector::<u64, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point2_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let x = Point::<u64, 2>::from([i[0], i[1]]); let z = Vector::<u64, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let x = Point::<u64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let x = Point::<u64, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point3_u64(i: &[u64; 4], o: &mut [u64; 9]) -> bool {
    let x = Point::<u64, 3>::from([i[0], i[1], i[2]]); let s = i[3];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    let x = Point::<u64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point3_u64(i: &[u64; 6], o: &mut [u64; 18]) -> bool {
    let x = Point::<u64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Matrix::<u64, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0][0]; }{ let y = &x * s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Matrix::<u64, 1, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; }{ let y = &x / s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 3]) -> bool {
    let x = Matrix::<u64, 1, 1>::from([i[0]]); let s = i[1];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; }{ let y = &x % s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    let x = Matrix::<u64, 1, 1>::from([i[0]]); let z = Matrix::<u64, 1, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; }{ let y = x.clone() + &z; o[1] = y[0][0]; }{ let y = &x + z.clone(); o[2] = y[0][0]; }{ let y = &x + &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x1_u64(i: &[u64; 2], o: &mut [u64; 6]) -> bool {
    let x = Matrix::<u64, 1, 1>::from([i[0]]); let z = Matrix::<u64, 1, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; }{ let y = x.clone() - &z; o[1] = y[0][0]; }{ let y = &x - z.clone(); o[2] = y[0][0]; }{ let y = &x - &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Matrix::<u64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Matrix::<u64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x2_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Matrix::<u64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x2_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u64, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x2_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u64, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 27]) -> bool {
    let x = Matrix::<u64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x * s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 27]) -> bool {
    let x = Matrix::<u64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x / s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x3_u64(i: &[u64; 10], o: &mut [u64; 27]) -> bool {
    let x = Matrix::<u64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x % s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x3_u64(i: &[u64; 18], o: &mut [u64; 54]) -> bool {
    let x = Matrix::<u64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<u64, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() + &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x + z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x + &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x3_u64(i: &[u64; 18], o: &mut [u64; 54]) -> bool {
    let x = Matrix::<u64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<u64, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() - &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x - z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x - &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 48]) -> bool {
    let x = Matrix::<u64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x * s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 48]) -> bool {
    let x = Matrix::<u64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x / s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x4_u64(i: &[u64; 17], o: &mut [u64; 48]) -> bool {
    let x = Matrix::<u64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x % s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x4_u64(i: &[u64; 32], o: &mut [u64; 96]) -> bool {
    let x = Matrix::<u64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<u64, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() + &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x + z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x + &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x4_u64(i: &[u64; 32], o: &mut [u64; 96]) -> bool {
    let x = Matrix::<u64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<u64, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() - &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x - z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x - &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let x = Matrix::<u64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let x = Matrix::<u64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x3_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let x = Matrix::<u64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x3_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u64, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x3_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u64, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let x = Matrix::<u64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let x = Matrix::<u64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x2_u64(i: &[u64; 7], o: &mut [u64; 18]) -> bool {
    let x = Matrix::<u64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x2_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u64, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x2_u64(i: &[u64; 12], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<u64, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x * s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x / s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x3_u64(i: &[u64; 13], o: &mut [u64; 36]) -> bool {
    let x = Matrix::<u64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x % s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x3_u64(i: &[u64; 24], o: &mut [u64; 72]) -> bool {
    let x = Matrix::<u64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<u64, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x + z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x + &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x3_u64(i: &[u64; 24], o: &mut [u64; 72]) -> bool {
    let x = Matrix::<u64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<u64, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x - z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x - &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Matrix::<u64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Matrix::<u64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x4_u64(i: &[u64; 5], o: &mut [u64; 12]) -> bool {
    let x = Matrix::<u64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u64, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x4_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<u64, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x * s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x / s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x2_u64(i: &[u64; 9], o: &mut [u64; 24]) -> bool {
    let x = Matrix::<u64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x % s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x2_u64(i: &[u64; 16], o: &mut [u64; 48]) -> bool {
    let x = Matrix::<u64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<u64, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() + &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x + z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x + &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x2_u64(i: &[u64; 16], o: &mut [u64; 48]) -> bool {
    let x = Matrix::<u64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<u64, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() - &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x - z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x - &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_mul_scalar_quaternion_u64(i: &[u64; 5], o: &mut [u64; 20]) -> bool {
    let x = Quaternion::<u64>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() * &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x * &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_div_scalar_quaternion_u64(i: &[u64; 5], o: &mut [u64; 20]) -> bool {
    let x = Quaternion::<u64>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() / &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x / &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_rem_scalar_quaternion_u64(i: &[u64; 5], o: &mut [u64; 20]) -> bool {
    let x = Quaternion::<u64>::new(i[0], i[1], i[2], i[3]); let s = i[4];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() % &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x % &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_add_quaternion_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Quaternion::<u64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u64>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_sub_quaternion_u64(i: &[u64; 8], o: &mut [u64; 24]) -> bool {
    let x = Quaternion::<u64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u64>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_mul_scalar_complex_u64(i: &[u64; 3], o: &mut [u64; 10]) -> bool {
    let x = Complex::<u64>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() * s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x * s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() * &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x * &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_scalar_complex_u64(i: &[u64; 3], o: &mut [u64; 10]) -> bool {
    let x = Complex::<u64>::new(i[0], i[1]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() / s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x / s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() / &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x / &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_rem_scalar_complex_u64(i: &[u64; 3], o: &mut [u64; 10]) -> bool {
    let x = Complex::<u64>::new(i[0], i[1]); let s = i[2];if s == 0 { return true; }{ let y = x.clone() % s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x % s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() % &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x % &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_add_complex_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let x = Complex::<u64>::new(i[0], i[1]); let z = Complex::<u64>::new(i[2], i[3]);{ let y = x.clone() + z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() + &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x + z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x + &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_sub_complex_u64(i: &[u64; 4], o: &mut [u64; 12]) -> bool {
    let x = Complex::<u64>::new(i[0], i[1]); let z = Complex::<u64>::new(i[2], i[3]);{ let y = x.clone() - z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() - &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x - z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x - &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point2_f32(i: &[f32; 3], o: &mut [f32; 6]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point2_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point3_f32(i: &[f32; 4], o: &mut [f32; 9]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point3_f32(i: &[f32; 6], o: &mut [f32; 18]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0][0]; }{ let y = &x * s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() / s; o[0] = y[0][0]; }{ let y = &x / s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() % s; o[0] = y[0][0]; }{ let y = &x % s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([i[0]]); let z = Matrix::<f32, 1, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; }{ let y = x.clone() + &z; o[1] = y[0][0]; }{ let y = &x + z.clone(); o[2] = y[0][0]; }{ let y = &x + &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x1_f32(i: &[f32; 2], o: &mut [f32; 6]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([i[0]]); let z = Matrix::<f32, 1, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; }{ let y = x.clone() - &z; o[1] = y[0][0]; }{ let y = &x - z.clone(); o[2] = y[0][0]; }{ let y = &x - &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x2_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x2_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f32, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x2_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f32, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 27]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x * s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 27]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x / s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x3_f32(i: &[f32; 10], o: &mut [f32; 27]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x % s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x3_f32(i: &[f32; 18], o: &mut [f32; 54]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<f32, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() + &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x + z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x + &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x3_f32(i: &[f32; 18], o: &mut [f32; 54]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<f32, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() - &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x - z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x - &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 48]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x * s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 48]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x / s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x4_f32(i: &[f32; 17], o: &mut [f32; 48]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x % s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x4_f32(i: &[f32; 32], o: &mut [f32; 96]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<f32, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() + &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x + z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x + &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x4_f32(i: &[f32; 32], o: &mut [f32; 96]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<f32, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() - &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x - z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x - &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x3_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x3_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f32, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x3_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f32, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x2_f32(i: &[f32; 7], o: &mut [f32; 18]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x2_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f32, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x2_f32(i: &[f32; 12], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f32, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x * s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x / s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x3_f32(i: &[f32; 13], o: &mut [f32; 36]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x % s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x3_f32(i: &[f32; 24], o: &mut [f32; 72]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<f32, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x + z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x + &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x3_f32(i: &[f32; 24], o: &mut [f32; 72]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<f32, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x - z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x - &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x4_f32(i: &[f32; 5], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f32, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x4_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f32, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x * s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x / s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x2_f32(i: &[f32; 9], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x % s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x2_f32(i: &[f32; 16], o: &mut [f32; 48]) -> bool {
    let x = Matrix::<f32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<f32, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() + &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x + z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x + &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x2_f32(i: &[f32; 16], o: &mut [f32; 48]) -> bool {
    let x = Matrix::<f32, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<f32, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() - &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x - z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x - &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_mul_scalar_quaternion_f32(i: &[f32; 5], o: &mut [f32; 20]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() * &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x * &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_div_scalar_quaternion_f32(i: &[f32; 5], o: &mut [f32; 20]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() / &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x / &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_rem_scalar_quaternion_f32(i: &[f32; 5], o: &mut [f32; 20]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() % &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x % &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_add_quaternion_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f32>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_sub_quaternion_f32(i: &[f32; 8], o: &mut [f32; 24]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f32>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_mul_scalar_complex_f32(i: &[f32; 3], o: &mut [f32; 10]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() * s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x * s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() * &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x * &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_scalar_complex_f32(i: &[f32; 3], o: &mut [f32; 10]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() / s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x / s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() / &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x / &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_rem_scalar_complex_f32(i: &[f32; 3], o: &mut [f32; 10]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() % s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x % s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() % &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x % &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_add_complex_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]);{ let y = x.clone() + z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() + &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x + z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x + &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_sub_complex_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]);{ let y = x.clone() - z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() - &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x - z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x - &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_complex_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]);{ let y = x / z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x / &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x / z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x / &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y /= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y /= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_vector4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_vector4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_vector4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_vector4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_vector4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0]; }{ let y = &x * s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() / s; o[0] = y[0]; }{ let y = &x / s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() % s; o[0] = y[0]; }{ let y = &x % s; o[1] = y[0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; }{ let y = x.clone() + &z; o[1] = y[0]; }{ let y = &x + z.clone(); o[2] = y[0]; }{ let y = &x + &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; }{ let y = x.clone() - &z; o[1] = y[0]; }{ let y = &x - z.clone(); o[2] = y[0]; }{ let y = &x - &z; o[3] = y[0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x * s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x / s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point2_f64(i: &[f64; 3], o: &mut [f64; 6]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let s = i[2];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; }{ let y = &x % s; o[2] = y[0]; o[3] = y[1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y[0]; o[5] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() + &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x + z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x + &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point2_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; }{ let y = x.clone() - &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x - z.clone(); o[4] = y[0]; o[5] = y[1]; }{ let y = &x - &z; o[6] = y[0]; o[7] = y[1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y[0]; o[9] = y[1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y[0]; o[11] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_mul_scalar_point3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x * s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_div_scalar_point3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x / s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_rem_scalar_point3_f64(i: &[f64; 4], o: &mut [f64; 9]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let s = i[3];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = &x % s; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_add_point3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() + &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x + z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x + &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_sub_point3_f64(i: &[f64; 6], o: &mut [f64; 18]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x.clone() - &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x - z.clone(); o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x - &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[15] = y[0]; o[16] = y[1]; o[17] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() * s; o[0] = y[0][0]; }{ let y = &x * s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() / s; o[0] = y[0][0]; }{ let y = &x / s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([i[0]]); let s = i[1];{ let y = x.clone() % s; o[0] = y[0][0]; }{ let y = &x % s; o[1] = y[0][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[2] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([i[0]]); let z = Matrix::<f64, 1, 1>::from([i[1]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; }{ let y = x.clone() + &z; o[1] = y[0][0]; }{ let y = &x + z.clone(); o[2] = y[0][0]; }{ let y = &x + &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x1_f64(i: &[f64; 2], o: &mut [f64; 6]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([i[0]]); let z = Matrix::<f64, 1, 1>::from([i[1]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; }{ let y = x.clone() - &z; o[1] = y[0][0]; }{ let y = &x - z.clone(); o[2] = y[0][0]; }{ let y = &x - &z; o[3] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[4] = y[0][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[5] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x2_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x2_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f64, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x2_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f64, 2, 2>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[0][1]; o[22] = y[1][0]; o[23] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 27]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x * s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 27]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x / s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x3_f64(i: &[f64; 10], o: &mut [f64; 27]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let s = i[9];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = &x % s; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x3_f64(i: &[f64; 18], o: &mut [f64; 54]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<f64, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() + &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x + z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x + &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x3_f64(i: &[f64; 18], o: &mut [f64; 54]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Matrix::<f64, 3, 3>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x.clone() - &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x - z.clone(); o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x - &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[45] = y[0][0]; o[46] = y[0][1]; o[47] = y[0][2]; o[48] = y[1][0]; o[49] = y[1][1]; o[50] = y[1][2]; o[51] = y[2][0]; o[52] = y[2][1]; o[53] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 48]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x * s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 48]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x / s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x4_f64(i: &[f64; 17], o: &mut [f64; 48]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let s = i[16];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = &x % s; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x4_f64(i: &[f64; 32], o: &mut [f64; 96]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<f64, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() + &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x + z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x + &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x4_f64(i: &[f64; 32], o: &mut [f64; 96]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]); let z = Matrix::<f64, 4, 4>::from([i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x.clone() - &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x - z.clone(); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x - &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[80] = y[0][0]; o[81] = y[0][1]; o[82] = y[0][2]; o[83] = y[0][3]; o[84] = y[1][0]; o[85] = y[1][1]; o[86] = y[1][2]; o[87] = y[1][3]; o[88] = y[2][0]; o[89] = y[2][1]; o[90] = y[2][2]; o[91] = y[2][3]; o[92] = y[3][0]; o[93] = y[3][1]; o[94] = y[3][2]; o[95] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix2x3_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix2x3_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f64, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix2x3_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f64, 2, 3>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[1][0]; o[33] = y[1][1]; o[34] = y[2][0]; o[35] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x * s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x / s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix3x2_f64(i: &[f64; 7], o: &mut [f64; 18]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let s = i[6];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = &x % s; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix3x2_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f64, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() + &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x + z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x + &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix3x2_f64(i: &[f64; 12], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5]]); let z = Matrix::<f64, 3, 2>::from([i[6], i[7], i[8], i[9], i[10], i[11]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x.clone() - &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x - z.clone(); o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x - &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[1][0]; o[28] = y[1][1]; o[29] = y[1][2]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[30] = y[0][0]; o[31] = y[0][1]; o[32] = y[0][2]; o[33] = y[1][0]; o[34] = y[1][1]; o[35] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x * s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x / s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x3_f64(i: &[f64; 13], o: &mut [f64; 36]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let s = i[12];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = &x % s; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x3_f64(i: &[f64; 24], o: &mut [f64; 72]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<f64, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() + &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x + z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x + &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x3_f64(i: &[f64; 24], o: &mut [f64; 72]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11]]); let z = Matrix::<f64, 4, 3>::from([i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; }{ let y = x.clone() - &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[0][3]; o[16] = y[1][0]; o[17] = y[1][1]; o[18] = y[1][2]; o[19] = y[1][3]; o[20] = y[2][0]; o[21] = y[2][1]; o[22] = y[2][2]; o[23] = y[2][3]; }{ let y = &x - z.clone(); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; o[32] = y[2][0]; o[33] = y[2][1]; o[34] = y[2][2]; o[35] = y[2][3]; }{ let y = &x - &z; o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[0][3]; o[40] = y[1][0]; o[41] = y[1][1]; o[42] = y[1][2]; o[43] = y[1][3]; o[44] = y[2][0]; o[45] = y[2][1]; o[46] = y[2][2]; o[47] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[60] = y[0][0]; o[61] = y[0][1]; o[62] = y[0][2]; o[63] = y[0][3]; o[64] = y[1][0]; o[65] = y[1][1]; o[66] = y[1][2]; o[67] = y[1][3]; o[68] = y[2][0]; o[69] = y[2][1]; o[70] = y[2][2]; o[71] = y[2][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x * s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x / s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix1x4_f64(i: &[f64; 5], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = &x % s; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix1x4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f64, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() + &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x + z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x + &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix1x4_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([i[0], i[1], i[2], i[3]]); let z = Matrix::<f64, 1, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[1][0]; o[2] = y[2][0]; o[3] = y[3][0]; }{ let y = x.clone() - &z; o[4] = y[0][0]; o[5] = y[1][0]; o[6] = y[2][0]; o[7] = y[3][0]; }{ let y = &x - z.clone(); o[8] = y[0][0]; o[9] = y[1][0]; o[10] = y[2][0]; o[11] = y[3][0]; }{ let y = &x - &z; o[12] = y[0][0]; o[13] = y[1][0]; o[14] = y[2][0]; o[15] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0][0]; o[17] = y[1][0]; o[18] = y[2][0]; o[19] = y[3][0]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0][0]; o[21] = y[1][0]; o[22] = y[2][0]; o[23] = y[3][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_mul_scalar_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() * s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x * s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_div_scalar_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() / s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x / s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_rem_scalar_matrix4x2_f64(i: &[f64; 9], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let s = i[8];{ let y = x.clone() % s; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = &x % s; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_add_matrix4x2_f64(i: &[f64; 16], o: &mut [f64; 48]) -> bool {
    let x = Matrix::<f64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<f64, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() + z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() + &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x + z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x + &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_sub_matrix4x2_f64(i: &[f64; 16], o: &mut [f64; 48]) -> bool {
    let x = Matrix::<f64, 4, 2>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Matrix::<f64, 4, 2>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.clone() - z.clone(); o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x.clone() - &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x - z.clone(); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x - &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[40] = y[0][0]; o[41] = y[0][1]; o[42] = y[0][2]; o[43] = y[0][3]; o[44] = y[1][0]; o[45] = y[1][1]; o[46] = y[1][2]; o[47] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_mul_scalar_quaternion_f64(i: &[f64; 5], o: &mut [f64; 20]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() * s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x * s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y *= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() * &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x * &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_div_scalar_quaternion_f64(i: &[f64; 5], o: &mut [f64; 20]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() / s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x / s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y /= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() / &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x / &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_rem_scalar_quaternion_f64(i: &[f64; 5], o: &mut [f64; 20]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let s = i[4];{ let y = x.clone() % s; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = &x % s; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = { let mut y = x.clone(); y %= s; y }; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = x.clone() % &s; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = &x % &s; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_add_quaternion_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f64>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() + z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() + &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x + z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x + &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y += &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_sub_quaternion_f64(i: &[f64; 8], o: &mut [f64; 24]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f64>::new(i[4], i[5], i[6], i[7]);{ let y = x.clone() - z.clone(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x.clone() - &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x - z.clone(); o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x - &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[16] = y[0]; o[17] = y[1]; o[18] = y[2]; o[19] = y[3]; }{ let y = { let mut y = x.clone(); y -= &z; y }; o[20] = y[0]; o[21] = y[1]; o[22] = y[2]; o[23] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_mul_scalar_complex_f64(i: &[f64; 3], o: &mut [f64; 10]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() * s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x * s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y *= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() * &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x * &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_scalar_complex_f64(i: &[f64; 3], o: &mut [f64; 10]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() / s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x / s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y /= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() / &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x / &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_rem_scalar_complex_f64(i: &[f64; 3], o: &mut [f64; 10]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let s = i[2];{ let y = x.clone() % s; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = &x % s; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = { let mut y = x.clone(); y %= s; y }; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = x.clone() % &s; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = &x % &s; o[8] = y.real(); o[9] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_add_complex_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]);{ let y = x.clone() + z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() + &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x + z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x + &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y += &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_sub_complex_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]);{ let y = x.clone() - z.clone(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x.clone() - &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x - z.clone(); o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x - &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= z.clone(); y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x.clone(); y -= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_div_complex_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]);{ let y = x / z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x / &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x / z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x / &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y /= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y /= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector1_u8(i: &[u8; 1], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let z = Point::<u8, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point1_u8(i: &[u8; 1], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let z = Point::<u8, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector2_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let z = Point::<u8, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point2_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point2_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let z = Point::<u8, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector3_u8(i: &[u8; 3], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let z = Point::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point3_u8(i: &[u8; 3], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point3_u8(i: &[u8; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let z = Point::<u8, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector4_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point4_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point4_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<u8, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector5_u8(i: &[u8; 5], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<u8, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<u8, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point5_u8(i: &[u8; 5], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point5_u8(i: &[u8; 10], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<u8, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<u8, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector8_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    let x = Vector::<u8, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<u8, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<u8, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point8_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point8_u8(i: &[u8; 16], o: &mut [u8; 2]) -> bool {
    let x = Point::<u8, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<u8, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_cross_u8(i: &[u8; 9], o: &mut [u8; 3]) -> bool {
    let x = Vector3::<u8>::new(i[0], i[1], i[2]); let z = Vector3::<u8>::new(i[3], i[4], i[5]); let w = Vector3::<u8>::new(i[6], i[7], i[8]);{ let y = x.cross(&z); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_triple_u8(i: &[u8; 9], o: &mut [u8; 3]) -> bool {
    let x = Vector3::<u8>::new(i[0], i[1], i[2]); let z = Vector3::<u8>::new(i[3], i[4], i[5]); let w = Vector3::<u8>::new(i[6], i[7], i[8]);{ let y = x.triple(&z, &w); o[0] = y; }{ let y = x.dot(&z.cross(&w)); o[1] = y; }{ let y = z.dot(&w.cross(&x)); o[2] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_1_1_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([[i[0]]]); let z = Matrix::<u8, 1, 1>::from([[i[1]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([[i[0]]]); let z = Vector::<u8, 1>::from([i[1]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_2_2_u8(i: &[u8; 8], o: &mut [u8; 20]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<u8, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_2x2_u8(i: &[u8; 6], o: &mut [u8; 8]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Vector::<u8, 2>::from([i[4], i[5]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; }{ let y = x * &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x * z; o[4] = y[0]; o[5] = y[1]; }{ let y = &x * &z; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_3_3_u8(i: &[u8; 18], o: &mut [u8; 45]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<u8, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_3x3_u8(i: &[u8; 12], o: &mut [u8; 12]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Vector::<u8, 3>::from([i[9], i[10], i[11]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x * &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x * z; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x * &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_4_4_u8(i: &[u8; 32], o: &mut [u8; 80]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<u8, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_4x4_u8(i: &[u8; 20], o: &mut [u8; 16]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Vector::<u8, 4>::from([i[16], i[17], i[18], i[19]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_3_2_u8(i: &[u8; 12], o: &mut [u8; 20]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<u8, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_2_3_u8(i: &[u8; 12], o: &mut [u8; 45]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<u8, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_4_1_u8(i: &[u8; 8], o: &mut [u8; 5]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<u8, 4, 1>::from([[i[4], i[5], i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Vector::<u8, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_1_4_u8(i: &[u8; 8], o: &mut [u8; 80]) -> bool {
    let x = Matrix::<u8, 4, 1>::from([[i[0], i[1], i[2], i[3]]]); let z = Matrix::<u8, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_4_3_u8(i: &[u8; 20], o: &mut [u8; 30]) -> bool {
    let x = Matrix::<u8, 2, 4>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]]]); let z = Matrix::<u8, 4, 3>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = x.transpose().tr_mul(&z); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_3_2_u8(i: &[u8; 18], o: &mut [u8; 40]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<u8, 3, 2>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x * &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x * z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x * &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = x.transpose().tr_mul(&z); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_5_2_u8(i: &[u8; 25], o: &mut [u8; 24]) -> bool {
    let x = Matrix::<u8, 3, 5>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]], [i[12], i[13], i[14]]]); let z = Matrix::<u8, 5, 2>::from([[i[15], i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23], i[24]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_9_2_u8(i: &[u8; 36], o: &mut [u8; 16]) -> bool {
    let x = Matrix::<u8, 2, 9>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]], [i[8], i[9]], [i[10], i[11]], [i[12], i[13]], [i[14], i[15]], [i[16], i[17]]]); let z = Matrix::<u8, 9, 2>::from([[i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26]], [i[27], i[28], i[29], i[30], i[31], i[32], i[33], i[34], i[35]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([[i[0]]]); let z = Matrix::<u8, 1, 1>::from([[i[1]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([[i[0]]]); let z = Matrix::<u8, 1, 1>::from([[i[1]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_2_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<u8, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_2_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<u8, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_3_u8(i: &[u8; 18], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<u8, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_3_u8(i: &[u8; 18], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<u8, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_4_u8(i: &[u8; 32], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<u8, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_4_u8(i: &[u8; 32], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<u8, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_product_u8(i: &[u8; 8], o: &mut [u8; 16]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u8>::new(i[4], i[5], i[6], i[7]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squares_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u8>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&x); o[0] = y; }{ let y = x.norm_squared(); o[1] = y; }{ let y = x.modulus_squared(); o[2] = y; }{ let y = x.magnitude_squared(); o[3] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_dot_u8(i: &[u8; 8], o: &mut [u8; 2]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u8>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_product_u8(i: &[u8; 4], o: &mut [u8; 12]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x * z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x * z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x * &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y *= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y *= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_squared_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x.squared(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * x; o[2] = y.real(); o[3] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_cubed_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x.cubed(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * x * x; o[2] = y.real(); o[3] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_squares_u8(i: &[u8; 4], o: &mut [u8; 3]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x.norm_squared(); o[0] = y; }{ let y = x.modulus_squared(); o[1] = y; }{ let y = x.magnitude_squared(); o[2] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_scale_u8(i: &[u8; 4], o: &mut [u8; 2]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]);{ let y = x.scale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_unscale_u8(i: &[u8; 3], o: &mut [u8; 2]) -> bool {
    if i[2] == 0 { return true; } let y = Complex::<u8>::new(i[0], i[1]).unscale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_1_u8(i: &[u8; 2], o: &mut [u8; 2]) -> bool {
    if false { return true; } match Point::<u8, 1>::from_homogeneous(&Vector::<u8, 2>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = 1; } None => { o[1] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_2_u8(i: &[u8; 3], o: &mut [u8; 3]) -> bool {
    if false { return true; } match Point::<u8, 2>::from_homogeneous(&Vector::<u8, 3>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = p[1]; o[2] = 1; } None => { o[2] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_3_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    if false { return true; } match Point::<u8, 3>::from_homogeneous(&Vector::<u8, 4>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; o[3] = 1; } None => { o[3] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector1_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let z = Point::<i32, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point1_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let z = Point::<i32, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector2_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let z = Point::<i32, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point2_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let z = Point::<i32, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector3_i32(i: &[i32; 3], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let z = Point::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point3_i32(i: &[i32; 3], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point3_i32(i: &[i32; 6], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let z = Point::<i32, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector4_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point4_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point4_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<i32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector5_i32(i: &[i32; 5], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<i32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<i32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point5_i32(i: &[i32; 5], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point5_i32(i: &[i32; 10], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<i32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<i32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector8_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    let x = Vector::<i32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<i32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<i32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point8_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point8_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    let x = Point::<i32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<i32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_cross_i32(i: &[i32; 9], o: &mut [i32; 3]) -> bool {
    let x = Vector3::<i32>::new(i[0], i[1], i[2]); let z = Vector3::<i32>::new(i[3], i[4], i[5]); let w = Vector3::<i32>::new(i[6], i[7], i[8]);{ let y = x.cross(&z); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_triple_i32(i: &[i32; 9], o: &mut [i32; 3]) -> bool {
    let x = Vector3::<i32>::new(i[0], i[1], i[2]); let z = Vector3::<i32>::new(i[3], i[4], i[5]); let w = Vector3::<i32>::new(i[6], i[7], i[8]);{ let y = x.triple(&z, &w); o[0] = y; }{ let y = x.dot(&z.cross(&w)); o[1] = y; }{ let y = z.dot(&w.cross(&x)); o[2] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_1_1_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([[i[0]]]); let z = Matrix::<i32, 1, 1>::from([[i[1]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x1_i32(i: &[i32; 2], o: &mut [i32; 4]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([[i[0]]]); let z = Vector::<i32, 1>::from([i[1]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_2_2_i32(i: &[i32; 8], o: &mut [i32; 20]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_2x2_i32(i: &[i32; 6], o: &mut [i32; 8]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Vector::<i32, 2>::from([i[4], i[5]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; }{ let y = x * &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x * z; o[4] = y[0]; o[5] = y[1]; }{ let y = &x * &z; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_3_3_i32(i: &[i32; 18], o: &mut [i32; 45]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_3x3_i32(i: &[i32; 12], o: &mut [i32; 12]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Vector::<i32, 3>::from([i[9], i[10], i[11]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x * &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x * z; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x * &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_4_4_i32(i: &[i32; 32], o: &mut [i32; 80]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_4x4_i32(i: &[i32; 20], o: &mut [i32; 16]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Vector::<i32, 4>::from([i[16], i[17], i[18], i[19]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_3_2_i32(i: &[i32; 12], o: &mut [i32; 20]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<i32, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_2_3_i32(i: &[i32; 12], o: &mut [i32; 45]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<i32, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_4_1_i32(i: &[i32; 8], o: &mut [i32; 5]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<i32, 4, 1>::from([[i[4], i[5], i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x4_i32(i: &[i32; 8], o: &mut [i32; 4]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Vector::<i32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_1_4_i32(i: &[i32; 8], o: &mut [i32; 80]) -> bool {
    let x = Matrix::<i32, 4, 1>::from([[i[0], i[1], i[2], i[3]]]); let z = Matrix::<i32, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_4_3_i32(i: &[i32; 20], o: &mut [i32; 30]) -> bool {
    let x = Matrix::<i32, 2, 4>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]]]); let z = Matrix::<i32, 4, 3>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = x.transpose().tr_mul(&z); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_3_2_i32(i: &[i32; 18], o: &mut [i32; 40]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<i32, 3, 2>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x * &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x * z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x * &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = x.transpose().tr_mul(&z); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_5_2_i32(i: &[i32; 25], o: &mut [i32; 24]) -> bool {
    let x = Matrix::<i32, 3, 5>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]], [i[12], i[13], i[14]]]); let z = Matrix::<i32, 5, 2>::from([[i[15], i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23], i[24]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_9_2_i32(i: &[i32; 36], o: &mut [i32; 16]) -> bool {
    let x = Matrix::<i32, 2, 9>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]], [i[8], i[9]], [i[10], i[11]], [i[12], i[13]], [i[14], i[15]], [i[16], i[17]]]); let z = Matrix::<i32, 9, 2>::from([[i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26]], [i[27], i[28], i[29], i[30], i[31], i[32], i[33], i[34], i[35]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([[i[0]]]); let z = Matrix::<i32, 1, 1>::from([[i[1]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([[i[0]]]); let z = Matrix::<i32, 1, 1>::from([[i[1]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_1_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([[i[0]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_2_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_2_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_2_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_3_i32(i: &[i32; 18], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_3_i32(i: &[i32; 18], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_3_i32(i: &[i32; 9], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_4_i32(i: &[i32; 32], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_4_i32(i: &[i32; 32], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_4_i32(i: &[i32; 16], o: &mut [i32; 2]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_product_i32(i: &[i32; 8], o: &mut [i32; 16]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squares_i32(i: &[i32; 8], o: &mut [i32; 4]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&x); o[0] = y; }{ let y = x.norm_squared(); o[1] = y; }{ let y = x.modulus_squared(); o[2] = y; }{ let y = x.magnitude_squared(); o[3] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_dot_i32(i: &[i32; 8], o: &mut [i32; 2]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squared_i32(i: &[i32; 8], o: &mut [i32; 8]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x.squared(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_conjugate_i32(i: &[i32; 8], o: &mut [i32; 8]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]);{ let y = x.conjugate(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = { let mut y = x; y.conjugate_mut(); y }; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_product_i32(i: &[i32; 4], o: &mut [i32; 12]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x * z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x * z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x * &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y *= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y *= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_squared_i32(i: &[i32; 4], o: &mut [i32; 4]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x.squared(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * x; o[2] = y.real(); o[3] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_cubed_i32(i: &[i32; 4], o: &mut [i32; 4]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x.cubed(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * x * x; o[2] = y.real(); o[3] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_squares_i32(i: &[i32; 4], o: &mut [i32; 3]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x.norm_squared(); o[0] = y; }{ let y = x.modulus_squared(); o[1] = y; }{ let y = x.magnitude_squared(); o[2] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_scale_i32(i: &[i32; 4], o: &mut [i32; 2]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]);{ let y = x.scale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_unscale_i32(i: &[i32; 3], o: &mut [i32; 2]) -> bool {
    if i[2] == 0 || i[2] == -1 { return true; } let y = Complex::<i32>::new(i[0], i[1]).unscale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_1_i32(i: &[i32; 2], o: &mut [i32; 2]) -> bool {
    if i[1] == -1 { return true; } match Point::<i32, 1>::from_homogeneous(&Vector::<i32, 2>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = 1; } None => { o[1] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_2_i32(i: &[i32; 3], o: &mut [i32; 3]) -> bool {
    if i[2] == -1 { return true; } match Point::<i32, 2>::from_homogeneous(&Vector::<i32, 3>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = p[1]; o[2] = 1; } None => { o[2] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_3_i32(i: &[i32; 4], o: &mut [i32; 4]) -> bool {
    if i[3] == -1 { return true; } match Point::<i32, 3>::from_homogeneous(&Vector::<i32, 4>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; o[3] = 1; } None => { o[3] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 1>::from([i[0]]); let z = Vector::<i64, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector1_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 1>::from([i[0]]); let z = Vector::<i64, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 1>::from([i[0]]); let z = Point::<i64, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point1_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 1>::from([i[0]]); let z = Point::<i64, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 2>::from([i[0], i[1]]); let z = Vector::<i64, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector2_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 2>::from([i[0], i[1]]); let z = Vector::<i64, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 2>::from([i[0], i[1]]); let z = Point::<i64, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point2_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 2>::from([i[0], i[1]]); let z = Point::<i64, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i64, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector3_i64(i: &[i64; 3], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i64, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 3>::from([i[0], i[1], i[2]]); let z = Point::<i64, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point3_i64(i: &[i64; 3], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point3_i64(i: &[i64; 6], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 3>::from([i[0], i[1], i[2]]); let z = Point::<i64, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector4_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<i64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point4_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point4_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<i64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<i64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector5_i64(i: &[i64; 5], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<i64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<i64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point5_i64(i: &[i64; 5], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point5_i64(i: &[i64; 10], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<i64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<i64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector8_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    let x = Vector::<i64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<i64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<i64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point8_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point8_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    let x = Point::<i64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<i64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_cross_i64(i: &[i64; 9], o: &mut [i64; 3]) -> bool {
    let x = Vector3::<i64>::new(i[0], i[1], i[2]); let z = Vector3::<i64>::new(i[3], i[4], i[5]); let w = Vector3::<i64>::new(i[6], i[7], i[8]);{ let y = x.cross(&z); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_triple_i64(i: &[i64; 9], o: &mut [i64; 3]) -> bool {
    let x = Vector3::<i64>::new(i[0], i[1], i[2]); let z = Vector3::<i64>::new(i[3], i[4], i[5]); let w = Vector3::<i64>::new(i[6], i[7], i[8]);{ let y = x.triple(&z, &w); o[0] = y; }{ let y = x.dot(&z.cross(&w)); o[1] = y; }{ let y = z.dot(&w.cross(&x)); o[2] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_1_1_i64(i: &[i64; 2], o: &mut [i64; 5]) -> bool {
    let x = Matrix::<i64, 1, 1>::from([[i[0]]]); let z = Matrix::<i64, 1, 1>::from([[i[1]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x1_i64(i: &[i64; 2], o: &mut [i64; 4]) -> bool {
    let x = Matrix::<i64, 1, 1>::from([[i[0]]]); let z = Vector::<i64, 1>::from([i[1]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_2_2_i64(i: &[i64; 8], o: &mut [i64; 20]) -> bool {
    let x = Matrix::<i64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_2x2_i64(i: &[i64; 6], o: &mut [i64; 8]) -> bool {
    let x = Matrix::<i64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Vector::<i64, 2>::from([i[4], i[5]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; }{ let y = x * &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x * z; o[4] = y[0]; o[5] = y[1]; }{ let y = &x * &z; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_3_3_i64(i: &[i64; 18], o: &mut [i64; 45]) -> bool {
    let x = Matrix::<i64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_3x3_i64(i: &[i64; 12], o: &mut [i64; 12]) -> bool {
    let x = Matrix::<i64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Vector::<i64, 3>::from([i[9], i[10], i[11]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x * &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x * z; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x * &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_4_4_i64(i: &[i64; 32], o: &mut [i64; 80]) -> bool {
    let x = Matrix::<i64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_4x4_i64(i: &[i64; 20], o: &mut [i64; 16]) -> bool {
    let x = Matrix::<i64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Vector::<i64, 4>::from([i[16], i[17], i[18], i[19]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_3_2_i64(i: &[i64; 12], o: &mut [i64; 20]) -> bool {
    let x = Matrix::<i64, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<i64, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_2_3_i64(i: &[i64; 12], o: &mut [i64; 45]) -> bool {
    let x = Matrix::<i64, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<i64, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_4_1_i64(i: &[i64; 8], o: &mut [i64; 5]) -> bool {
    let x = Matrix::<i64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<i64, 4, 1>::from([[i[4], i[5], i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x4_i64(i: &[i64; 8], o: &mut [i64; 4]) -> bool {
    let x = Matrix::<i64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Vector::<i64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_1_4_i64(i: &[i64; 8], o: &mut [i64; 80]) -> bool {
    let x = Matrix::<i64, 4, 1>::from([[i[0], i[1], i[2], i[3]]]); let z = Matrix::<i64, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_4_3_i64(i: &[i64; 20], o: &mut [i64; 30]) -> bool {
    let x = Matrix::<i64, 2, 4>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]]]); let z = Matrix::<i64, 4, 3>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = x.transpose().tr_mul(&z); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_3_2_i64(i: &[i64; 18], o: &mut [i64; 40]) -> bool {
    let x = Matrix::<i64, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<i64, 3, 2>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x * &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x * z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x * &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = x.transpose().tr_mul(&z); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_5_2_i64(i: &[i64; 25], o: &mut [i64; 24]) -> bool {
    let x = Matrix::<i64, 3, 5>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]], [i[12], i[13], i[14]]]); let z = Matrix::<i64, 5, 2>::from([[i[15], i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23], i[24]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_9_2_i64(i: &[i64; 36], o: &mut [i64; 16]) -> bool {
    let x = Matrix::<i64, 2, 9>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]], [i[8], i[9]], [i[10], i[11]], [i[12], i[13]], [i[14], i[15]], [i[16], i[17]]]); let z = Matrix::<i64, 9, 2>::from([[i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26]], [i[27], i[28], i[29], i[30], i[31], i[32], i[33], i[34], i[35]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 1, 1>::from([[i[0]]]); let z = Matrix::<i64, 1, 1>::from([[i[1]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 1, 1>::from([[i[0]]]); let z = Matrix::<i64, 1, 1>::from([[i[1]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_1_i64(i: &[i64; 1], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 1, 1>::from([[i[0]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_2_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_2_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_2_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_3_i64(i: &[i64; 18], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_3_i64(i: &[i64; 18], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_3_i64(i: &[i64; 9], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_4_i64(i: &[i64; 32], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_4_i64(i: &[i64; 32], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C05_det_4_i64(i: &[i64; 16], o: &mut [i64; 2]) -> bool {
    let x = Matrix::<i64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]);{ let y = x.determinant(); o[0] = y; }{ let y = x.transpose().determinant(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_product_i64(i: &[i64; 8], o: &mut [i64; 16]) -> bool {
    let x = Quaternion::<i64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i64>::new(i[4], i[5], i[6], i[7]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squares_i64(i: &[i64; 8], o: &mut [i64; 4]) -> bool {
    let x = Quaternion::<i64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i64>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&x); o[0] = y; }{ let y = x.norm_squared(); o[1] = y; }{ let y = x.modulus_squared(); o[2] = y; }{ let y = x.magnitude_squared(); o[3] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_dot_i64(i: &[i64; 8], o: &mut [i64; 2]) -> bool {
    let x = Quaternion::<i64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i64>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squared_i64(i: &[i64; 8], o: &mut [i64; 8]) -> bool {
    let x = Quaternion::<i64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i64>::new(i[4], i[5], i[6], i[7]);{ let y = x.squared(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * x; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_conjugate_i64(i: &[i64; 8], o: &mut [i64; 8]) -> bool {
    let x = Quaternion::<i64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i64>::new(i[4], i[5], i[6], i[7]);{ let y = x.conjugate(); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = { let mut y = x; y.conjugate_mut(); y }; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_product_i64(i: &[i64; 4], o: &mut [i64; 12]) -> bool {
    let x = Complex::<i64>::new(i[0], i[1]); let z = Complex::<i64>::new(i[2], i[3]);{ let y = x * z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x * z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x * &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y *= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y *= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_squared_i64(i: &[i64; 4], o: &mut [i64; 4]) -> bool {
    let x = Complex::<i64>::new(i[0], i[1]); let z = Complex::<i64>::new(i[2], i[3]);{ let y = x.squared(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * x; o[2] = y.real(); o[3] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_cubed_i64(i: &[i64; 4], o: &mut [i64; 4]) -> bool {
    let x = Complex::<i64>::new(i[0], i[1]); let z = Complex::<i64>::new(i[2], i[3]);{ let y = x.cubed(); o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * x * x; o[2] = y.real(); o[3] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_squares_i64(i: &[i64; 4], o: &mut [i64; 3]) -> bool {
    let x = Complex::<i64>::new(i[0], i[1]); let z = Complex::<i64>::new(i[2], i[3]);{ let y = x.norm_squared(); o[0] = y; }{ let y = x.modulus_squared(); o[1] = y; }{ let y = x.magnitude_squared(); o[2] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_scale_i64(i: &[i64; 4], o: &mut [i64; 2]) -> bool {
    let x = Complex::<i64>::new(i[0], i[1]); let z = Complex::<i64>::new(i[2], i[3]);{ let y = x.scale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_unscale_i64(i: &[i64; 3], o: &mut [i64; 2]) -> bool {
    if i[2] == 0 || i[2] == -1 { return true; } let y = Complex::<i64>::new(i[0], i[1]).unscale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_1_i64(i: &[i64; 2], o: &mut [i64; 2]) -> bool {
    if i[1] == -1 { return true; } match Point::<i64, 1>::from_homogeneous(&Vector::<i64, 2>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = 1; } None => { o[1] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_2_i64(i: &[i64; 3], o: &mut [i64; 3]) -> bool {
    if i[2] == -1 { return true; } match Point::<i64, 2>::from_homogeneous(&Vector::<i64, 3>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = p[1]; o[2] = 1; } None => { o[2] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C01_from_homogeneous_3_i64(i: &[i64; 4], o: &mut [i64; 4]) -> bool {
    if i[3] == -1 { return true; } match Point::<i64, 3>::from_homogeneous(&Vector::<i64, 4>::from(*i)) { Some(p) => { o[0] = p[0]; o[1] = p[1]; o[2] = p[2]; o[3] = 1; } None => { o[3] = 0; } } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector1_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point1_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector2_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point2_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point2_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector3_f32(i: &[f32; 3], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Point::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point3_f32(i: &[f32; 3], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point3_f32(i: &[f32; 6], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Point::<f32, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector4_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point4_f32(i: &[f32; 4], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point4_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<f32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector5_f32(i: &[f32; 5], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<f32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<f32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point5_f32(i: &[f32; 5], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point5_f32(i: &[f32; 10], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<f32, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<f32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector8_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    let x = Vector::<f32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<f32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<f32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point8_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point8_f32(i: &[f32; 16], o: &mut [f32; 2]) -> bool {
    let x = Point::<f32, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<f32, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_cross_f32(i: &[f32; 9], o: &mut [f32; 3]) -> bool {
    let x = Vector3::<f32>::new(i[0], i[1], i[2]); let z = Vector3::<f32>::new(i[3], i[4], i[5]); let w = Vector3::<f32>::new(i[6], i[7], i[8]);{ let y = x.cross(&z); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_1_1_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x1_f32(i: &[f32; 2], o: &mut [f32; 4]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Vector::<f32, 1>::from([i[1]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_2_2_f32(i: &[f32; 8], o: &mut [f32; 20]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_2x2_f32(i: &[f32; 6], o: &mut [f32; 8]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Vector::<f32, 2>::from([i[4], i[5]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; }{ let y = x * &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x * z; o[4] = y[0]; o[5] = y[1]; }{ let y = &x * &z; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_3_3_f32(i: &[f32; 18], o: &mut [f32; 45]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_3x3_f32(i: &[f32; 12], o: &mut [f32; 12]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Vector::<f32, 3>::from([i[9], i[10], i[11]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x * &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x * z; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x * &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_4_4_f32(i: &[f32; 32], o: &mut [f32; 80]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_4x4_f32(i: &[f32; 20], o: &mut [f32; 16]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Vector::<f32, 4>::from([i[16], i[17], i[18], i[19]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_3_2_f32(i: &[f32; 12], o: &mut [f32; 20]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<f32, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_2_3_f32(i: &[f32; 12], o: &mut [f32; 45]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<f32, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_4_1_f32(i: &[f32; 8], o: &mut [f32; 5]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<f32, 4, 1>::from([[i[4], i[5], i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x4_f32(i: &[f32; 8], o: &mut [f32; 4]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Vector::<f32, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_1_4_f32(i: &[f32; 8], o: &mut [f32; 80]) -> bool {
    let x = Matrix::<f32, 4, 1>::from([[i[0], i[1], i[2], i[3]]]); let z = Matrix::<f32, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_4_3_f32(i: &[f32; 20], o: &mut [f32; 30]) -> bool {
    let x = Matrix::<f32, 2, 4>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]]]); let z = Matrix::<f32, 4, 3>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = x.transpose().tr_mul(&z); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_3_2_f32(i: &[f32; 18], o: &mut [f32; 40]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<f32, 3, 2>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x * &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x * z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x * &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = x.transpose().tr_mul(&z); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_5_2_f32(i: &[f32; 25], o: &mut [f32; 24]) -> bool {
    let x = Matrix::<f32, 3, 5>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]], [i[12], i[13], i[14]]]); let z = Matrix::<f32, 5, 2>::from([[i[15], i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23], i[24]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_9_2_f32(i: &[f32; 36], o: &mut [f32; 16]) -> bool {
    let x = Matrix::<f32, 2, 9>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]], [i[8], i[9]], [i[10], i[11]], [i[12], i[13]], [i[14], i[15]], [i[16], i[17]]]); let z = Matrix::<f32, 9, 2>::from([[i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26]], [i[27], i[28], i[29], i[30], i[31], i[32], i[33], i[34], i[35]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_1_f32(i: &[f32; 2], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_2_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_2_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_3_f32(i: &[f32; 18], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_3_f32(i: &[f32; 18], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_4_f32(i: &[f32; 32], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_4_f32(i: &[f32; 32], o: &mut [f32; 2]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_product_f32(i: &[f32; 8], o: &mut [f32; 16]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f32>::new(i[4], i[5], i[6], i[7]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squares_f32(i: &[f32; 8], o: &mut [f32; 4]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f32>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&x); o[0] = y; }{ let y = x.norm_squared(); o[1] = y; }{ let y = x.modulus_squared(); o[2] = y; }{ let y = x.magnitude_squared(); o[3] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_dot_f32(i: &[f32; 8], o: &mut [f32; 2]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f32>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_product_f32(i: &[f32; 4], o: &mut [f32; 12]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]);{ let y = x * z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x * z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x * &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y *= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y *= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector1_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point1_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector2_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point2_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point2_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector3_f64(i: &[f64; 3], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Point::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point3_f64(i: &[f64; 3], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point3_f64(i: &[f64; 6], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Point::<f64, 3>::from([i[3], i[4], i[5]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector4_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point4_f64(i: &[f64; 4], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 4>::from([i[0], i[1], i[2], i[3]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point4_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<f64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector5_f64(i: &[f64; 5], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<f64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<f64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point5_f64(i: &[f64; 5], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point5_f64(i: &[f64; 10], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Point::<f64, 5>::from([i[5], i[6], i[7], i[8], i[9]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_vector8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<f64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_vector8_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_vector8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    let x = Vector::<f64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Vector::<f64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_dot_point8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<f64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_squares_point8_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); { let y = x.norm_squared(); o[0] = y; }{ let y = x.magnitude_squared(); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C02_distance_point8_f64(i: &[f64; 16], o: &mut [f64; 2]) -> bool {
    let x = Point::<f64, 8>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]]); let z = Point::<f64, 8>::from([i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15]]);{ let y = x.metric_distance_squared(&z); o[0] = y; }{ let y = z.metric_distance_squared(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C03_cross_f64(i: &[f64; 9], o: &mut [f64; 3]) -> bool {
    let x = Vector3::<f64>::new(i[0], i[1], i[2]); let z = Vector3::<f64>::new(i[3], i[4], i[5]); let w = Vector3::<f64>::new(i[6], i[7], i[8]);{ let y = x.cross(&z); o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_1_1_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x1_f64(i: &[f64; 2], o: &mut [f64; 4]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Vector::<f64, 1>::from([i[1]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_2_2_f64(i: &[f64; 8], o: &mut [f64; 20]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_2x2_f64(i: &[f64; 6], o: &mut [f64; 8]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Vector::<f64, 2>::from([i[4], i[5]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; }{ let y = x * &z; o[2] = y[0]; o[3] = y[1]; }{ let y = &x * z; o[4] = y[0]; o[5] = y[1]; }{ let y = &x * &z; o[6] = y[0]; o[7] = y[1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_3_3_f64(i: &[f64; 18], o: &mut [f64; 45]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_3x3_f64(i: &[f64; 12], o: &mut [f64; 12]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Vector::<f64, 3>::from([i[9], i[10], i[11]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; }{ let y = x * &z; o[3] = y[0]; o[4] = y[1]; o[5] = y[2]; }{ let y = &x * z; o[6] = y[0]; o[7] = y[1]; o[8] = y[2]; }{ let y = &x * &z; o[9] = y[0]; o[10] = y[1]; o[11] = y[2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_4_4_f64(i: &[f64; 32], o: &mut [f64; 80]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_4x4_f64(i: &[f64; 20], o: &mut [f64; 16]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Vector::<f64, 4>::from([i[16], i[17], i[18], i[19]]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_3_2_f64(i: &[f64; 12], o: &mut [f64; 20]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<f64, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; }{ let y = x.transpose().tr_mul(&z); o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[1][0]; o[19] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_2_3_f64(i: &[f64; 12], o: &mut [f64; 45]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<f64, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; o[6] = y[2][0]; o[7] = y[2][1]; o[8] = y[2][2]; }{ let y = x * &z; o[9] = y[0][0]; o[10] = y[0][1]; o[11] = y[0][2]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[2][0]; o[16] = y[2][1]; o[17] = y[2][2]; }{ let y = &x * z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; }{ let y = &x * &z; o[27] = y[0][0]; o[28] = y[0][1]; o[29] = y[0][2]; o[30] = y[1][0]; o[31] = y[1][1]; o[32] = y[1][2]; o[33] = y[2][0]; o[34] = y[2][1]; o[35] = y[2][2]; }{ let y = x.transpose().tr_mul(&z); o[36] = y[0][0]; o[37] = y[0][1]; o[38] = y[0][2]; o[39] = y[1][0]; o[40] = y[1][1]; o[41] = y[1][2]; o[42] = y[2][0]; o[43] = y[2][1]; o[44] = y[2][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_1_4_1_f64(i: &[f64; 8], o: &mut [f64; 5]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<f64, 4, 1>::from([[i[4], i[5], i[6], i[7]]]);{ let y = x * z; o[0] = y[0][0]; }{ let y = x * &z; o[1] = y[0][0]; }{ let y = &x * z; o[2] = y[0][0]; }{ let y = &x * &z; o[3] = y[0][0]; }{ let y = x.transpose().tr_mul(&z); o[4] = y[0][0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_apply_1x4_f64(i: &[f64; 8], o: &mut [f64; 4]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Vector::<f64, 4>::from([i[4], i[5], i[6], i[7]]);{ let y = x * z; o[0] = y[0]; }{ let y = x * &z; o[1] = y[0]; }{ let y = &x * z; o[2] = y[0]; }{ let y = &x * &z; o[3] = y[0]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_1_4_f64(i: &[f64; 8], o: &mut [f64; 80]) -> bool {
    let x = Matrix::<f64, 4, 1>::from([[i[0], i[1], i[2], i[3]]]); let z = Matrix::<f64, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; o[8] = y[2][0]; o[9] = y[2][1]; o[10] = y[2][2]; o[11] = y[2][3]; o[12] = y[3][0]; o[13] = y[3][1]; o[14] = y[3][2]; o[15] = y[3][3]; }{ let y = x * &z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; o[24] = y[2][0]; o[25] = y[2][1]; o[26] = y[2][2]; o[27] = y[2][3]; o[28] = y[3][0]; o[29] = y[3][1]; o[30] = y[3][2]; o[31] = y[3][3]; }{ let y = &x * z; o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; o[40] = y[2][0]; o[41] = y[2][1]; o[42] = y[2][2]; o[43] = y[2][3]; o[44] = y[3][0]; o[45] = y[3][1]; o[46] = y[3][2]; o[47] = y[3][3]; }{ let y = &x * &z; o[48] = y[0][0]; o[49] = y[0][1]; o[50] = y[0][2]; o[51] = y[0][3]; o[52] = y[1][0]; o[53] = y[1][1]; o[54] = y[1][2]; o[55] = y[1][3]; o[56] = y[2][0]; o[57] = y[2][1]; o[58] = y[2][2]; o[59] = y[2][3]; o[60] = y[3][0]; o[61] = y[3][1]; o[62] = y[3][2]; o[63] = y[3][3]; }{ let y = x.transpose().tr_mul(&z); o[64] = y[0][0]; o[65] = y[0][1]; o[66] = y[0][2]; o[67] = y[0][3]; o[68] = y[1][0]; o[69] = y[1][1]; o[70] = y[1][2]; o[71] = y[1][3]; o[72] = y[2][0]; o[73] = y[2][1]; o[74] = y[2][2]; o[75] = y[2][3]; o[76] = y[3][0]; o[77] = y[3][1]; o[78] = y[3][2]; o[79] = y[3][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_4_3_f64(i: &[f64; 20], o: &mut [f64; 30]) -> bool {
    let x = Matrix::<f64, 2, 4>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]]]); let z = Matrix::<f64, 4, 3>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; o[4] = y[2][0]; o[5] = y[2][1]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[1][0]; o[9] = y[1][1]; o[10] = y[2][0]; o[11] = y[2][1]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; o[16] = y[2][0]; o[17] = y[2][1]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[2][0]; o[23] = y[2][1]; }{ let y = x.transpose().tr_mul(&z); o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[1][0]; o[27] = y[1][1]; o[28] = y[2][0]; o[29] = y[2][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_4_3_2_f64(i: &[f64; 18], o: &mut [f64; 40]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<f64, 3, 2>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[0][3]; o[4] = y[1][0]; o[5] = y[1][1]; o[6] = y[1][2]; o[7] = y[1][3]; }{ let y = x * &z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[0][2]; o[11] = y[0][3]; o[12] = y[1][0]; o[13] = y[1][1]; o[14] = y[1][2]; o[15] = y[1][3]; }{ let y = &x * z; o[16] = y[0][0]; o[17] = y[0][1]; o[18] = y[0][2]; o[19] = y[0][3]; o[20] = y[1][0]; o[21] = y[1][1]; o[22] = y[1][2]; o[23] = y[1][3]; }{ let y = &x * &z; o[24] = y[0][0]; o[25] = y[0][1]; o[26] = y[0][2]; o[27] = y[0][3]; o[28] = y[1][0]; o[29] = y[1][1]; o[30] = y[1][2]; o[31] = y[1][3]; }{ let y = x.transpose().tr_mul(&z); o[32] = y[0][0]; o[33] = y[0][1]; o[34] = y[0][2]; o[35] = y[0][3]; o[36] = y[1][0]; o[37] = y[1][1]; o[38] = y[1][2]; o[39] = y[1][3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_3_5_2_f64(i: &[f64; 25], o: &mut [f64; 24]) -> bool {
    let x = Matrix::<f64, 3, 5>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]], [i[12], i[13], i[14]]]); let z = Matrix::<f64, 5, 2>::from([[i[15], i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23], i[24]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[0][2]; o[3] = y[1][0]; o[4] = y[1][1]; o[5] = y[1][2]; }{ let y = x * &z; o[6] = y[0][0]; o[7] = y[0][1]; o[8] = y[0][2]; o[9] = y[1][0]; o[10] = y[1][1]; o[11] = y[1][2]; }{ let y = &x * z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[0][2]; o[15] = y[1][0]; o[16] = y[1][1]; o[17] = y[1][2]; }{ let y = &x * &z; o[18] = y[0][0]; o[19] = y[0][1]; o[20] = y[0][2]; o[21] = y[1][0]; o[22] = y[1][1]; o[23] = y[1][2]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_product_2_9_2_f64(i: &[f64; 36], o: &mut [f64; 16]) -> bool {
    let x = Matrix::<f64, 2, 9>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]], [i[6], i[7]], [i[8], i[9]], [i[10], i[11]], [i[12], i[13]], [i[14], i[15]], [i[16], i[17]]]); let z = Matrix::<f64, 9, 2>::from([[i[18], i[19], i[20], i[21], i[22], i[23], i[24], i[25], i[26]], [i[27], i[28], i[29], i[30], i[31], i[32], i[33], i[34], i[35]]]);{ let y = x * z; o[0] = y[0][0]; o[1] = y[0][1]; o[2] = y[1][0]; o[3] = y[1][1]; }{ let y = x * &z; o[4] = y[0][0]; o[5] = y[0][1]; o[6] = y[1][0]; o[7] = y[1][1]; }{ let y = &x * z; o[8] = y[0][0]; o[9] = y[0][1]; o[10] = y[1][0]; o[11] = y[1][1]; }{ let y = &x * &z; o[12] = y[0][0]; o[13] = y[0][1]; o[14] = y[1][0]; o[15] = y[1][1]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_1_f64(i: &[f64; 2], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_2_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_2_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_3_f64(i: &[f64; 18], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_3_f64(i: &[f64; 18], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_tr_dot_4_f64(i: &[f64; 32], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.tr_dot(&z); o[0] = y; }{ let y = z.tr_dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C04_dot_4_f64(i: &[f64; 32], o: &mut [f64; 2]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_product_f64(i: &[f64; 8], o: &mut [f64; 16]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f64>::new(i[4], i[5], i[6], i[7]);{ let y = x * z; o[0] = y[0]; o[1] = y[1]; o[2] = y[2]; o[3] = y[3]; }{ let y = x * &z; o[4] = y[0]; o[5] = y[1]; o[6] = y[2]; o[7] = y[3]; }{ let y = &x * z; o[8] = y[0]; o[9] = y[1]; o[10] = y[2]; o[11] = y[3]; }{ let y = &x * &z; o[12] = y[0]; o[13] = y[1]; o[14] = y[2]; o[15] = y[3]; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_squares_f64(i: &[f64; 8], o: &mut [f64; 4]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f64>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&x); o[0] = y; }{ let y = x.norm_squared(); o[1] = y; }{ let y = x.modulus_squared(); o[2] = y; }{ let y = x.magnitude_squared(); o[3] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C10_dot_f64(i: &[f64; 8], o: &mut [f64; 2]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f64>::new(i[4], i[5], i[6], i[7]);{ let y = x.dot(&z); o[0] = y; }{ let y = z.dot(&x); o[1] = y; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C15_product_f64(i: &[f64; 4], o: &mut [f64; 12]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]);{ let y = x * z; o[0] = y.real(); o[1] = y.imaginary(); }{ let y = x * &z; o[2] = y.real(); o[3] = y.imaginary(); }{ let y = &x * z; o[4] = y.real(); o[5] = y.imaginary(); }{ let y = &x * &z; o[6] = y.real(); o[7] = y.imaginary(); }{ let y = { let mut y = x; y *= z; y }; o[8] = y.real(); o[9] = y.imaginary(); }{ let y = { let mut y = x; y *= &z; y }; o[10] = y.real(); o[11] = y.imaginary(); } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u8, 1>::from([i[0]]); let z = Vector::<u8, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector2_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u8, 2>::from([i[0], i[1]]); let z = Vector::<u8, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector3_u8(i: &[u8; 6], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u8, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u8, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u8, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector5_u8(i: &[u8; 10], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u8, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<u8, 5>::from([i[5], i[6], i[7], i[8], i[9]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector9_u8(i: &[u8; 18], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u8, 9>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Vector::<u8, 9>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let x = Point::<u8, 1>::from([i[0]]); let z = Point::<u8, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point2_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let x = Point::<u8, 2>::from([i[0], i[1]]); let z = Point::<u8, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point3_u8(i: &[u8; 6], o: &mut [u8; 4]) -> bool {
    let x = Point::<u8, 3>::from([i[0], i[1], i[2]]); let z = Point::<u8, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Point::<u8, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<u8, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x1_u8(i: &[u8; 2], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 1, 1>::from([[i[0]]]); let z = Matrix::<u8, 1, 1>::from([[i[1]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x2_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<u8, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x3_u8(i: &[u8; 18], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<u8, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x4_u8(i: &[u8; 32], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<u8, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x3_u8(i: &[u8; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<u8, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x2_u8(i: &[u8; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<u8, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x3_u8(i: &[u8; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<u8, 4, 3>::from([[i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x4_u8(i: &[u8; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 3, 4>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]]]); let z = Matrix::<u8, 3, 4>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]], [i[18], i[19], i[20]], [i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x4_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<u8, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x2_u8(i: &[u8; 16], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u8, 4, 2>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]]]); let z = Matrix::<u8, 4, 2>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_quaternion_u8(i: &[u8; 8], o: &mut [u8; 4]) -> bool {
    let x = Quaternion::<u8>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u8>::new(i[4], i[5], i[6], i[7]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_complex_u8(i: &[u8; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<u8>::new(i[0], i[1]); let z = Complex::<u8>::new(i[2], i[3]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_radians_u8(i: &[u8; 2], o: &mut [u8; 9]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_degrees_u8(i: &[u8; 2], o: &mut [u8; 9]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector1_i32(i: &[i32; 2], o: &mut [u8; 4]) -> bool {
    let x = Vector::<i32, 1>::from([i[0]]); let z = Vector::<i32, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector2_i32(i: &[i32; 4], o: &mut [u8; 4]) -> bool {
    let x = Vector::<i32, 2>::from([i[0], i[1]]); let z = Vector::<i32, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector3_i32(i: &[i32; 6], o: &mut [u8; 4]) -> bool {
    let x = Vector::<i32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<i32, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector4_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let x = Vector::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<i32, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector5_i32(i: &[i32; 10], o: &mut [u8; 4]) -> bool {
    let x = Vector::<i32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<i32, 5>::from([i[5], i[6], i[7], i[8], i[9]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector9_i32(i: &[i32; 18], o: &mut [u8; 4]) -> bool {
    let x = Vector::<i32, 9>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Vector::<i32, 9>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point1_i32(i: &[i32; 2], o: &mut [u8; 4]) -> bool {
    let x = Point::<i32, 1>::from([i[0]]); let z = Point::<i32, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point2_i32(i: &[i32; 4], o: &mut [u8; 4]) -> bool {
    let x = Point::<i32, 2>::from([i[0], i[1]]); let z = Point::<i32, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point3_i32(i: &[i32; 6], o: &mut [u8; 4]) -> bool {
    let x = Point::<i32, 3>::from([i[0], i[1], i[2]]); let z = Point::<i32, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point4_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let x = Point::<i32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<i32, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x1_i32(i: &[i32; 2], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 1, 1>::from([[i[0]]]); let z = Matrix::<i32, 1, 1>::from([[i[1]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x2_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<i32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x3_i32(i: &[i32; 18], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<i32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x4_i32(i: &[i32; 32], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<i32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x3_i32(i: &[i32; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<i32, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x2_i32(i: &[i32; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<i32, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x3_i32(i: &[i32; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<i32, 4, 3>::from([[i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x4_i32(i: &[i32; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 3, 4>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]]]); let z = Matrix::<i32, 3, 4>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]], [i[18], i[19], i[20]], [i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x4_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<i32, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x2_i32(i: &[i32; 16], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<i32, 4, 2>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]]]); let z = Matrix::<i32, 4, 2>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_quaternion_i32(i: &[i32; 8], o: &mut [u8; 4]) -> bool {
    let x = Quaternion::<i32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<i32>::new(i[4], i[5], i[6], i[7]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_complex_i32(i: &[i32; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<i32>::new(i[0], i[1]); let z = Complex::<i32>::new(i[2], i[3]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_radians_i32(i: &[i32; 2], o: &mut [u8; 9]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_degrees_i32(i: &[i32; 2], o: &mut [u8; 9]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector1_u64(i: &[u64; 2], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u64, 1>::from([i[0]]); let z = Vector::<u64, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector2_u64(i: &[u64; 4], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u64, 2>::from([i[0], i[1]]); let z = Vector::<u64, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector3_u64(i: &[u64; 6], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<u64, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector4_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<u64, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector5_u64(i: &[u64; 10], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<u64, 5>::from([i[5], i[6], i[7], i[8], i[9]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector9_u64(i: &[u64; 18], o: &mut [u8; 4]) -> bool {
    let x = Vector::<u64, 9>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Vector::<u64, 9>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point1_u64(i: &[u64; 2], o: &mut [u8; 4]) -> bool {
    let x = Point::<u64, 1>::from([i[0]]); let z = Point::<u64, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point2_u64(i: &[u64; 4], o: &mut [u8; 4]) -> bool {
    let x = Point::<u64, 2>::from([i[0], i[1]]); let z = Point::<u64, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point3_u64(i: &[u64; 6], o: &mut [u8; 4]) -> bool {
    let x = Point::<u64, 3>::from([i[0], i[1], i[2]]); let z = Point::<u64, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point4_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let x = Point::<u64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<u64, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x1_u64(i: &[u64; 2], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 1, 1>::from([[i[0]]]); let z = Matrix::<u64, 1, 1>::from([[i[1]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x2_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<u64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x3_u64(i: &[u64; 18], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<u64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x4_u64(i: &[u64; 32], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<u64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x3_u64(i: &[u64; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<u64, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x2_u64(i: &[u64; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<u64, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x3_u64(i: &[u64; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<u64, 4, 3>::from([[i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x4_u64(i: &[u64; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 3, 4>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]]]); let z = Matrix::<u64, 3, 4>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]], [i[18], i[19], i[20]], [i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x4_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<u64, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x2_u64(i: &[u64; 16], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<u64, 4, 2>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]]]); let z = Matrix::<u64, 4, 2>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_quaternion_u64(i: &[u64; 8], o: &mut [u8; 4]) -> bool {
    let x = Quaternion::<u64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<u64>::new(i[4], i[5], i[6], i[7]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_complex_u64(i: &[u64; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<u64>::new(i[0], i[1]); let z = Complex::<u64>::new(i[2], i[3]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_radians_u64(i: &[u64; 2], o: &mut [u8; 9]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_degrees_u64(i: &[u64; 2], o: &mut [u8; 9]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector1_f32(i: &[f32; 2], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector3_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector4_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f32, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector5_f32(i: &[f32; 10], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f32, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<f32, 5>::from([i[5], i[6], i[7], i[8], i[9]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector9_f32(i: &[f32; 18], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f32, 9>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Vector::<f32, 9>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point1_f32(i: &[f32; 2], o: &mut [u8; 4]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point3_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Point::<f32, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point4_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let x = Point::<f32, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<f32, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x1_f32(i: &[f32; 2], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x2_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f32, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x3_f32(i: &[f32; 18], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f32, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x4_f32(i: &[f32; 32], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f32, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x3_f32(i: &[f32; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<f32, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x2_f32(i: &[f32; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<f32, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x3_f32(i: &[f32; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<f32, 4, 3>::from([[i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x4_f32(i: &[f32; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 3, 4>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]]]); let z = Matrix::<f32, 3, 4>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]], [i[18], i[19], i[20]], [i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x4_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<f32, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x2_f32(i: &[f32; 16], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f32, 4, 2>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]]]); let z = Matrix::<f32, 4, 2>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_quaternion_f32(i: &[f32; 8], o: &mut [u8; 4]) -> bool {
    let x = Quaternion::<f32>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f32>::new(i[4], i[5], i[6], i[7]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_complex_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_radians_f32(i: &[f32; 2], o: &mut [u8; 9]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_degrees_f32(i: &[f32; 2], o: &mut [u8; 9]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_euler_radians_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let x = Euler::<Radians<f32>>::new(Radians(i[0]), Radians(i[1]), Radians(i[2])); let z = Euler::<Radians<f32>>::new(Radians(i[3]), Radians(i[4]), Radians(i[5])); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_euler_degrees_f32(i: &[f32; 6], o: &mut [u8; 4]) -> bool {
    let x = Euler::<Degrees<f32>>::new(Degrees(i[0]), Degrees(i[1]), Degrees(i[2])); let z = Euler::<Degrees<f32>>::new(Degrees(i[3]), Degrees(i[4]), Degrees(i[5])); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector1_f64(i: &[f64; 2], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector3_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector4_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Vector::<f64, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector5_f64(i: &[f64; 10], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f64, 5>::from([i[0], i[1], i[2], i[3], i[4]]); let z = Vector::<f64, 5>::from([i[5], i[6], i[7], i[8], i[9]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_vector9_f64(i: &[f64; 18], o: &mut [u8; 4]) -> bool {
    let x = Vector::<f64, 9>::from([i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]]); let z = Vector::<f64, 9>::from([i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point1_f64(i: &[f64; 2], o: &mut [u8; 4]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point3_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Point::<f64, 3>::from([i[3], i[4], i[5]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_point4_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let x = Point::<f64, 4>::from([i[0], i[1], i[2], i[3]]); let z = Point::<f64, 4>::from([i[4], i[5], i[6], i[7]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x1_f64(i: &[f64; 2], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x2_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 2, 2>::from([[i[0], i[1]], [i[2], i[3]]]); let z = Matrix::<f64, 2, 2>::from([[i[4], i[5]], [i[6], i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x3_f64(i: &[f64; 18], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 3, 3>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]]]); let z = Matrix::<f64, 3, 3>::from([[i[9], i[10], i[11]], [i[12], i[13], i[14]], [i[15], i[16], i[17]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x4_f64(i: &[f64; 32], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 4, 4>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); let z = Matrix::<f64, 4, 4>::from([[i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]], [i[24], i[25], i[26], i[27]], [i[28], i[29], i[30], i[31]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix2x3_f64(i: &[f64; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 2, 3>::from([[i[0], i[1]], [i[2], i[3]], [i[4], i[5]]]); let z = Matrix::<f64, 2, 3>::from([[i[6], i[7]], [i[8], i[9]], [i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x2_f64(i: &[f64; 12], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 3, 2>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]]]); let z = Matrix::<f64, 3, 2>::from([[i[6], i[7], i[8]], [i[9], i[10], i[11]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x3_f64(i: &[f64; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 4, 3>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]], [i[8], i[9], i[10], i[11]]]); let z = Matrix::<f64, 4, 3>::from([[i[12], i[13], i[14], i[15]], [i[16], i[17], i[18], i[19]], [i[20], i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix3x4_f64(i: &[f64; 24], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 3, 4>::from([[i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]]]); let z = Matrix::<f64, 3, 4>::from([[i[12], i[13], i[14]], [i[15], i[16], i[17]], [i[18], i[19], i[20]], [i[21], i[22], i[23]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix1x4_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 1, 4>::from([[i[0]], [i[1]], [i[2]], [i[3]]]); let z = Matrix::<f64, 1, 4>::from([[i[4]], [i[5]], [i[6]], [i[7]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_matrix4x2_f64(i: &[f64; 16], o: &mut [u8; 4]) -> bool {
    let x = Matrix::<f64, 4, 2>::from([[i[0], i[1], i[2], i[3]], [i[4], i[5], i[6], i[7]]]); let z = Matrix::<f64, 4, 2>::from([[i[8], i[9], i[10], i[11]], [i[12], i[13], i[14], i[15]]]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_quaternion_f64(i: &[f64; 8], o: &mut [u8; 4]) -> bool {
    let x = Quaternion::<f64>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<f64>::new(i[4], i[5], i[6], i[7]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_complex_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_radians_f64(i: &[f64; 2], o: &mut [u8; 9]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_degrees_f64(i: &[f64; 2], o: &mut [u8; 9]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;o[4] = (x < z) as u8;o[5] = (x <= z) as u8;o[6] = (x > z) as u8;o[7] = (x >= z) as u8;o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 }; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_euler_radians_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let x = Euler::<Radians<f64>>::new(Radians(i[0]), Radians(i[1]), Radians(i[2])); let z = Euler::<Radians<f64>>::new(Radians(i[3]), Radians(i[4]), Radians(i[5])); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C29_eq_euler_degrees_f64(i: &[f64; 6], o: &mut [u8; 4]) -> bool {
    let x = Euler::<Degrees<f64>>::new(Degrees(i[0]), Degrees(i[1]), Degrees(i[2])); let z = Euler::<Degrees<f64>>::new(Degrees(i[3]), Degrees(i[4]), Degrees(i[5])); o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_vector1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_vector1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); let t = Vector::<f32, 1>::from([i[2]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); let t = Vector::<f32, 1>::from([i[2]]);let u = Vector::<f32, 1>::from([i[3]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_vector1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 1>::from([i[0]]); let z = Vector::<f32, 1>::from([i[1]]); let t = Vector::<f32, 1>::from([i[2]]);let u = Vector::<u32, 1>::from([i[3].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_vector2_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_vector2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); let t = Vector::<f32, 2>::from([i[4], i[5]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_vector2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_vector2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); let t = Vector::<f32, 2>::from([i[4], i[5]]);let u = Vector::<f32, 2>::from([i[6], i[7]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_vector2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_vector2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 2>::from([i[0], i[1]]); let z = Vector::<f32, 2>::from([i[2], i[3]]); let t = Vector::<f32, 2>::from([i[4], i[5]]);let u = Vector::<u32, 2>::from([i[6].to_bits(), i[7].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_vector3_f32(i: &[f32; 7], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[6]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[6]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_vector3_f32(i: &[f32; 9], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f32, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f32, 3>::from([i[3], i[4], i[5]]); let t = Vector::<f32, 3>::from([i[6], i[7], i[8]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_vector3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f32, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f32, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f32, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_vector3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f32, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f32, 3>::from([i[2], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f32, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f32, 3>::from([0.0, i[2], 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f32, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f32, 3>::from([0.0, 0.0, i[2]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f32, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f32, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f32, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f32, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f32, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<f32, 3>::from([i[3], 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f32, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f32, 3>::from([0.0, i[2], 0.0]);let u = Vector::<f32, 3>::from([0.0, i[3], 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f32, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f32, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<f32, 3>::from([0.0, 0.0, i[3]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f32, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f32, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f32, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_vector3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f32, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f32, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<u32, 3>::from([i[3].to_bits(), 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f32, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f32, 3>::from([0.0, i[2], 0.0]);let u = Vector::<u32, 3>::from([0, i[3].to_bits(), 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f32, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f32, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<u32, 3>::from([0, 0, i[3].to_bits()]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_vector4_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f32, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 4>::from([i[1], 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 4>::from([0.0, i[1], 0.0, 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 4>::from([0.0, 0.0, i[1], 0.0]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[1]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_vector4_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f32, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 4>::from([i[1], 0.0, 0.0, 0.0]); let t = Vector::<f32, 4>::from([i[2], 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 4>::from([0.0, i[1], 0.0, 0.0]); let t = Vector::<f32, 4>::from([0.0, i[2], 0.0, 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 4>::from([0.0, 0.0, i[1], 0.0]); let t = Vector::<f32, 4>::from([0.0, 0.0, i[2], 0.0]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[1]]); let t = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[2]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f32, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 4>::from([i[1], 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 4>::from([0.0, i[1], 0.0, 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 4>::from([0.0, 0.0, i[1], 0.0]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[1]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f32, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 4>::from([i[1], 0.0, 0.0, 0.0]); let t = Vector::<f32, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<f32, 4>::from([i[3], 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 4>::from([0.0, i[1], 0.0, 0.0]); let t = Vector::<f32, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<f32, 4>::from([0.0, i[3], 0.0, 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 4>::from([0.0, 0.0, i[1], 0.0]); let t = Vector::<f32, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<f32, 4>::from([0.0, 0.0, i[3], 0.0]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[1]]); let t = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[3]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f32, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 4>::from([i[1], 0.0, 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 4>::from([0.0, i[1], 0.0, 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 4>::from([0.0, 0.0, i[1], 0.0]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[1]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_vector4_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f32, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 4>::from([i[1], 0.0, 0.0, 0.0]); let t = Vector::<f32, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<u32, 4>::from([i[3].to_bits(), 0, 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 4>::from([0.0, i[1], 0.0, 0.0]); let t = Vector::<f32, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<u32, 4>::from([0, i[3].to_bits(), 0, 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 4>::from([0.0, 0.0, i[1], 0.0]); let t = Vector::<f32, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<u32, 4>::from([0, 0, i[3].to_bits(), 0]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[1]]); let t = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<u32, 4>::from([0, 0, 0, i[3].to_bits()]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_vector5_f32(i: &[f32; 3], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f32, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_vector5_f32(i: &[f32; 3], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f32, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); let t = Vector::<f32, 5>::from([i[2], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); let t = Vector::<f32, 5>::from([0.0, i[2], 0.0, 0.0, 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); let t = Vector::<f32, 5>::from([0.0, 0.0, i[2], 0.0, 0.0]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); let t = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[2], 0.0]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); let t = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[2]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f32, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f32, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); let t = Vector::<f32, 5>::from([i[2], 0.0, 0.0, 0.0, 0.0]);let u = Vector::<f32, 5>::from([i[3], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); let t = Vector::<f32, 5>::from([0.0, i[2], 0.0, 0.0, 0.0]);let u = Vector::<f32, 5>::from([0.0, i[3], 0.0, 0.0, 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); let t = Vector::<f32, 5>::from([0.0, 0.0, i[2], 0.0, 0.0]);let u = Vector::<f32, 5>::from([0.0, 0.0, i[3], 0.0, 0.0]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); let t = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[2], 0.0]);let u = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[3], 0.0]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); let t = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[2]]);let u = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[3]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f32, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_vector5_f32(i: &[f32; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f32, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); let t = Vector::<f32, 5>::from([i[2], 0.0, 0.0, 0.0, 0.0]);let u = Vector::<u32, 5>::from([i[3].to_bits(), 0, 0, 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); let t = Vector::<f32, 5>::from([0.0, i[2], 0.0, 0.0, 0.0]);let u = Vector::<u32, 5>::from([0, i[3].to_bits(), 0, 0, 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); let t = Vector::<f32, 5>::from([0.0, 0.0, i[2], 0.0, 0.0]);let u = Vector::<u32, 5>::from([0, 0, i[3].to_bits(), 0, 0]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); let t = Vector::<f32, 5>::from([0.0, 0.0, 0.0, i[2], 0.0]);let u = Vector::<u32, 5>::from([0, 0, 0, i[3].to_bits(), 0]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); let t = Vector::<f32, 5>::from([0.0, 0.0, 0.0, 0.0, i[2]]);let u = Vector::<u32, 5>::from([0, 0, 0, 0, i[3].to_bits()]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_point1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_point1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); let t = Vector::<f32, 1>::from([i[2]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); let t = Vector::<f32, 1>::from([i[2]]);let u = Vector::<f32, 1>::from([i[3]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_point1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 1>::from([i[0]]); let z = Point::<f32, 1>::from([i[1]]); let t = Vector::<f32, 1>::from([i[2]]);let u = Vector::<u32, 1>::from([i[3].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_point2_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_point2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); let t = Vector::<f32, 2>::from([i[4], i[5]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_point2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_point2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); let t = Vector::<f32, 2>::from([i[4], i[5]]);let u = Vector::<f32, 2>::from([i[6], i[7]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_point2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_point2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 2>::from([i[0], i[1]]); let z = Point::<f32, 2>::from([i[2], i[3]]); let t = Vector::<f32, 2>::from([i[4], i[5]]);let u = Vector::<u32, 2>::from([i[6].to_bits(), i[7].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_point3_f32(i: &[f32; 7], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Point::<f32, 3>::from([i[3], i[4], i[5]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[6]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[6]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_point3_f32(i: &[f32; 9], o: &mut [u8; 2]) -> bool {
    let x = Point::<f32, 3>::from([i[0], i[1], i[2]]); let z = Point::<f32, 3>::from([i[3], i[4], i[5]]); let t = Vector::<f32, 3>::from([i[6], i[7], i[8]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_point3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f32, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Point::<f32, 3>::from([0.0, i[0], 0.0]); let z = Point::<f32, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Point::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f32, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_point3_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f32, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f32, 3>::from([i[2], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Point::<f32, 3>::from([0.0, i[0], 0.0]); let z = Point::<f32, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f32, 3>::from([0.0, i[2], 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Point::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f32, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f32, 3>::from([0.0, 0.0, i[2]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f32, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Point::<f32, 3>::from([0.0, i[0], 0.0]); let z = Point::<f32, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Point::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f32, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f32, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f32, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<f32, 3>::from([i[3], 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f32, 3>::from([0.0, i[0], 0.0]); let z = Point::<f32, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f32, 3>::from([0.0, i[2], 0.0]);let u = Vector::<f32, 3>::from([0.0, i[3], 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f32, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f32, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<f32, 3>::from([0.0, 0.0, i[3]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f32, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Point::<f32, 3>::from([0.0, i[0], 0.0]); let z = Point::<f32, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Point::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f32, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_point3_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f32, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f32, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f32, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<u32, 3>::from([i[3].to_bits(), 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f32, 3>::from([0.0, i[0], 0.0]); let z = Point::<f32, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f32, 3>::from([0.0, i[2], 0.0]);let u = Vector::<u32, 3>::from([0, i[3].to_bits(), 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f32, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f32, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f32, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<u32, 3>::from([0, 0, i[3].to_bits()]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_matrix1x1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_matrix1x1_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); let t = Matrix::<f32, 1, 1>::from([[i[2]]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); let t = Matrix::<f32, 1, 1>::from([[i[2]]]);let u = Matrix::<f32, 1, 1>::from([[i[3]]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_matrix1x1_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 1>::from([[i[0]]]); let z = Matrix::<f32, 1, 1>::from([[i[1]]]); let t = Matrix::<f32, 1, 1>::from([[i[2]]]);let u = Matrix::<u32, 1, 1>::from([[i[3].to_bits()]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix2x2_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f32, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix2x2_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f32, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 2>::from([[i[2], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f32, 2, 2>::from([[0.0, i[2]], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[2], 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[2]]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f32, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f32, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 2>::from([[i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<f32, 2, 2>::from([[i[3], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f32, 2, 2>::from([[0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<f32, 2, 2>::from([[0.0, i[3]], [0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[3], 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[3]]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f32, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix2x2_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f32, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 2>::from([[i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<u32, 2, 2>::from([[i[3].to_bits(), 0], [0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f32, 2, 2>::from([[0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<u32, 2, 2>::from([[0, i[3].to_bits()], [0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<u32, 2, 2>::from([[0, 0], [i[3].to_bits(), 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f32, 2, 2>::from([[0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<u32, 2, 2>::from([[0, 0], [0, i[3].to_bits()]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_matrix1x2_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f32, 1, 2>::from([[i[2]], [i[3]]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_matrix1x2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f32, 1, 2>::from([[i[2]], [i[3]]]); let t = Matrix::<f32, 1, 2>::from([[i[4]], [i[5]]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_matrix1x2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f32, 1, 2>::from([[i[2]], [i[3]]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_matrix1x2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f32, 1, 2>::from([[i[2]], [i[3]]]); let t = Matrix::<f32, 1, 2>::from([[i[4]], [i[5]]]);let u = Matrix::<f32, 1, 2>::from([[i[6]], [i[7]]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_matrix1x2_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f32, 1, 2>::from([[i[2]], [i[3]]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_matrix1x2_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f32, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f32, 1, 2>::from([[i[2]], [i[3]]]); let t = Matrix::<f32, 1, 2>::from([[i[4]], [i[5]]]);let u = Matrix::<u32, 1, 2>::from([[i[6].to_bits()], [i[7].to_bits()]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix3x2_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix3x2_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 2>::from([[i[3], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 2>::from([[0.0, i[3], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[3]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[3], 0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[3], 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[3]]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix3x2_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 2>::from([[i[3].to_bits(), 0, 0], [0, 0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 2>::from([[0, i[3].to_bits(), 0], [0, 0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 2>::from([[0, 0, i[3].to_bits()], [0, 0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<u32, 3, 2>::from([[0, 0, 0], [i[3].to_bits(), 0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<u32, 3, 2>::from([[0, 0, 0], [0, i[3].to_bits(), 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f32, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<u32, 3, 2>::from([[0, 0, 0], [0, 0, i[3].to_bits()]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix2x3_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix2x3_f32(i: &[f32; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[i[2], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, i[2]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[2], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[2]], [0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[2], 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[2]]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[i[2], 0.0], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<f32, 2, 3>::from([[i[3], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, i[2]], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<f32, 2, 3>::from([[0.0, i[3]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[3], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[3]], [0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[3], 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[3]]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix2x3_f32(i: &[f32; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f32, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[i[2], 0.0], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<u32, 2, 3>::from([[i[3].to_bits(), 0], [0, 0], [0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, i[2]], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<u32, 2, 3>::from([[0, i[3].to_bits()], [0, 0], [0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<u32, 2, 3>::from([[0, 0], [i[3].to_bits(), 0], [0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<u32, 2, 3>::from([[0, 0], [0, i[3].to_bits()], [0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<u32, 2, 3>::from([[0, 0], [0, 0], [i[3].to_bits(), 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f32, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<u32, 2, 3>::from([[0, 0], [0, 0], [0, i[3].to_bits()]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix3x3_f32(i: &[f32; 3], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f32, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[7] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[8] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix3x3_f32(i: &[f32; 3], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f32, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[2], 0.0]]); o[7] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]); o[8] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f32, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[6] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[7] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[8] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f32, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[i[3], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, i[3], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[3]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[3], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[3], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[3]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[3], 0.0, 0.0]]); o[6] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[3], 0.0]]); o[7] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[3]]]); o[8] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f32, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[6] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[7] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[8] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix3x3_f32(i: &[f32; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f32, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[i[3].to_bits(), 0, 0], [0, 0, 0], [0, 0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, i[3].to_bits(), 0], [0, 0, 0], [0, 0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, i[3].to_bits()], [0, 0, 0], [0, 0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, 0], [i[3].to_bits(), 0, 0], [0, 0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, 0], [0, i[3].to_bits(), 0], [0, 0, 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, 0], [0, 0, i[3].to_bits()], [0, 0, 0]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, 0], [0, 0, 0], [i[3].to_bits(), 0, 0]]); o[6] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, 0], [0, 0, 0], [0, i[3].to_bits(), 0]]); o[7] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f32, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<u32, 3, 3>::from([[0, 0, 0], [0, 0, 0], [0, 0, i[3].to_bits()]]); o[8] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix4x4_f32(i: &[f32; 3], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f32, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); o[13] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); o[14] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); o[15] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix4x4_f32(i: &[f32; 3], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f32, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0]]); o[13] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0]]); o[14] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]]]); o[15] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f32, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); o[13] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); o[14] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); o[15] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f32, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[i[3], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, i[3], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[3], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[3]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[3], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[3], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[3], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[3]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[3], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[3], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[3], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[3]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[3], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[3], 0.0, 0.0]]); o[13] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[3], 0.0]]); o[14] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]]]);let u = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[3]]]); o[15] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f32, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); o[13] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); o[14] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); o[15] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix4x4_f32(i: &[f32; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f32, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[i[3].to_bits(), 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, i[3].to_bits(), 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, i[3].to_bits(), 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, i[3].to_bits()], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [i[3].to_bits(), 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, i[3].to_bits(), 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, i[3].to_bits(), 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[6] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, i[3].to_bits()], [0, 0, 0, 0], [0, 0, 0, 0]]); o[7] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [i[3].to_bits(), 0, 0, 0], [0, 0, 0, 0]]); o[8] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, i[3].to_bits(), 0, 0], [0, 0, 0, 0]]); o[9] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, i[3].to_bits(), 0], [0, 0, 0, 0]]); o[10] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, i[3].to_bits()], [0, 0, 0, 0]]); o[11] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [i[3].to_bits(), 0, 0, 0]]); o[12] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, i[3].to_bits(), 0, 0]]); o[13] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, i[3].to_bits(), 0]]); o[14] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); let t = Matrix::<f32, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]]]);let u = Matrix::<u32, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, i[3].to_bits()]]); o[15] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_quaternion_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f32>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f32>::new(i[1], 0.0, 0.0, 0.0); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Quaternion::<f32>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f32>::new(0.0, i[1], 0.0, 0.0); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f32>::new(0.0, 0.0, i[1], 0.0); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[1]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_quaternion_f32(i: &[f32; 3], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f32>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f32>::new(i[1], 0.0, 0.0, 0.0); let t = Vector::<f32, 4>::from([i[2], 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Quaternion::<f32>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f32>::new(0.0, i[1], 0.0, 0.0); let t = Vector::<f32, 4>::from([0.0, i[2], 0.0, 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f32>::new(0.0, 0.0, i[1], 0.0); let t = Vector::<f32, 4>::from([0.0, 0.0, i[2], 0.0]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[1]); let t = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[2]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f32>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f32>::new(i[1], 0.0, 0.0, 0.0); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Quaternion::<f32>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f32>::new(0.0, i[1], 0.0, 0.0); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f32>::new(0.0, 0.0, i[1], 0.0); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[1]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f32>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f32>::new(i[1], 0.0, 0.0, 0.0); let t = Vector::<f32, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<f32, 4>::from([i[3], 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f32>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f32>::new(0.0, i[1], 0.0, 0.0); let t = Vector::<f32, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<f32, 4>::from([0.0, i[3], 0.0, 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f32>::new(0.0, 0.0, i[1], 0.0); let t = Vector::<f32, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<f32, 4>::from([0.0, 0.0, i[3], 0.0]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[1]); let t = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[3]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f32>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f32>::new(i[1], 0.0, 0.0, 0.0); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Quaternion::<f32>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f32>::new(0.0, i[1], 0.0, 0.0); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f32>::new(0.0, 0.0, i[1], 0.0); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[1]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_quaternion_f32(i: &[f32; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f32>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f32>::new(i[1], 0.0, 0.0, 0.0); let t = Vector::<f32, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<u32, 4>::from([i[3].to_bits(), 0, 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f32>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f32>::new(0.0, i[1], 0.0, 0.0); let t = Vector::<f32, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<u32, 4>::from([0, i[3].to_bits(), 0, 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f32>::new(0.0, 0.0, i[1], 0.0); let t = Vector::<f32, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<u32, 4>::from([0, 0, i[3].to_bits(), 0]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f32>::new(0.0, 0.0, 0.0, i[1]); let t = Vector::<f32, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<u32, 4>::from([0, 0, 0, i[3].to_bits()]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_complex_f32(i: &[f32; 5], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_complex_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); let t = Complex::<f32>::new(i[4], i[5]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_complex_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_complex_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); let t = Complex::<f32>::new(i[4], i[5]);let u = Complex::<f32>::new(i[6], i[7]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_complex_f32(i: &[f32; 6], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_complex_f32(i: &[f32; 8], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f32>::new(i[0], i[1]); let z = Complex::<f32>::new(i[2], i[3]); let t = Complex::<f32>::new(i[4], i[5]);let u = Complex::<u32>::new(i[6].to_bits(), i[7].to_bits()); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_radians_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_radians_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_radians_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_degrees_f32(i: &[f32; 3], o: &mut [u8; 2]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_degrees_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_degrees_f32(i: &[f32; 4], o: &mut [u8; 2]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_euler_f32(i: &[f32; 7], o: &mut [u8; 2]) -> bool {
    let x = Euler::<Radians<f32>>::new(Radians(i[0]), Radians(i[1]), Radians(i[2])); let z = Euler::<Radians<f32>>::new(Radians(i[3]), Radians(i[4]), Radians(i[5])); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[6]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[6]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_euler_f32(i: &[f32; 3], o: &mut [u8; 3]) -> bool {
    { let x = Euler::<Radians<f32>>::new(Radians(i[0]), Radians(0.0), Radians(0.0)); let z = Euler::<Radians<f32>>::new(Radians(i[1]), Radians(0.0), Radians(0.0)); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Euler::<Radians<f32>>::new(Radians(0.0), Radians(i[0]), Radians(0.0)); let z = Euler::<Radians<f32>>::new(Radians(0.0), Radians(i[1]), Radians(0.0)); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Euler::<Radians<f32>>::new(Radians(0.0), Radians(0.0), Radians(i[0])); let z = Euler::<Radians<f32>>::new(Radians(0.0), Radians(0.0), Radians(i[1])); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_euler_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Euler::<Radians<f32>>::new(Radians(i[0]), Radians(0.0), Radians(0.0)); let z = Euler::<Radians<f32>>::new(Radians(i[1]), Radians(0.0), Radians(0.0)); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Euler::<Radians<f32>>::new(Radians(0.0), Radians(i[0]), Radians(0.0)); let z = Euler::<Radians<f32>>::new(Radians(0.0), Radians(i[1]), Radians(0.0)); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Euler::<Radians<f32>>::new(Radians(0.0), Radians(0.0), Radians(i[0])); let z = Euler::<Radians<f32>>::new(Radians(0.0), Radians(0.0), Radians(i[1])); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_euler_f32(i: &[f32; 4], o: &mut [u8; 3]) -> bool {
    { let x = Euler::<Radians<f32>>::new(Radians(i[0]), Radians(0.0), Radians(0.0)); let z = Euler::<Radians<f32>>::new(Radians(i[1]), Radians(0.0), Radians(0.0)); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Euler::<Radians<f32>>::new(Radians(0.0), Radians(i[0]), Radians(0.0)); let z = Euler::<Radians<f32>>::new(Radians(0.0), Radians(i[1]), Radians(0.0)); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Euler::<Radians<f32>>::new(Radians(0.0), Radians(0.0), Radians(i[0])); let z = Euler::<Radians<f32>>::new(Radians(0.0), Radians(0.0), Radians(i[1])); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_vector1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_vector1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); let t = Vector::<f64, 1>::from([i[2]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); let t = Vector::<f64, 1>::from([i[2]]);let u = Vector::<f64, 1>::from([i[3]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_vector1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 1>::from([i[0]]); let z = Vector::<f64, 1>::from([i[1]]); let t = Vector::<f64, 1>::from([i[2]]);let u = Vector::<u64, 1>::from([i[3].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_vector2_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_vector2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); let t = Vector::<f64, 2>::from([i[4], i[5]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_vector2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_vector2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); let t = Vector::<f64, 2>::from([i[4], i[5]]);let u = Vector::<f64, 2>::from([i[6], i[7]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_vector2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_vector2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 2>::from([i[0], i[1]]); let z = Vector::<f64, 2>::from([i[2], i[3]]); let t = Vector::<f64, 2>::from([i[4], i[5]]);let u = Vector::<u64, 2>::from([i[6].to_bits(), i[7].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_vector3_f64(i: &[f64; 7], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[6]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[6]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_vector3_f64(i: &[f64; 9], o: &mut [u8; 2]) -> bool {
    let x = Vector::<f64, 3>::from([i[0], i[1], i[2]]); let z = Vector::<f64, 3>::from([i[3], i[4], i[5]]); let t = Vector::<f64, 3>::from([i[6], i[7], i[8]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_vector3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f64, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f64, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f64, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_vector3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f64, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f64, 3>::from([i[2], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f64, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f64, 3>::from([0.0, i[2], 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f64, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f64, 3>::from([0.0, 0.0, i[2]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f64, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f64, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f64, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f64, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f64, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<f64, 3>::from([i[3], 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f64, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f64, 3>::from([0.0, i[2], 0.0]);let u = Vector::<f64, 3>::from([0.0, i[3], 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f64, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f64, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<f64, 3>::from([0.0, 0.0, i[3]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f64, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f64, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f64, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_vector3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Vector::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Vector::<f64, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f64, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<u64, 3>::from([i[3].to_bits(), 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 3>::from([0.0, i[0], 0.0]); let z = Vector::<f64, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f64, 3>::from([0.0, i[2], 0.0]);let u = Vector::<u64, 3>::from([0, i[3].to_bits(), 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Vector::<f64, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f64, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<u64, 3>::from([0, 0, i[3].to_bits()]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_vector4_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f64, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 4>::from([i[1], 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 4>::from([0.0, i[1], 0.0, 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 4>::from([0.0, 0.0, i[1], 0.0]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[1]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_vector4_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f64, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 4>::from([i[1], 0.0, 0.0, 0.0]); let t = Vector::<f64, 4>::from([i[2], 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 4>::from([0.0, i[1], 0.0, 0.0]); let t = Vector::<f64, 4>::from([0.0, i[2], 0.0, 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 4>::from([0.0, 0.0, i[1], 0.0]); let t = Vector::<f64, 4>::from([0.0, 0.0, i[2], 0.0]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[1]]); let t = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[2]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f64, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 4>::from([i[1], 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 4>::from([0.0, i[1], 0.0, 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 4>::from([0.0, 0.0, i[1], 0.0]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[1]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f64, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 4>::from([i[1], 0.0, 0.0, 0.0]); let t = Vector::<f64, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<f64, 4>::from([i[3], 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 4>::from([0.0, i[1], 0.0, 0.0]); let t = Vector::<f64, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<f64, 4>::from([0.0, i[3], 0.0, 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 4>::from([0.0, 0.0, i[1], 0.0]); let t = Vector::<f64, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<f64, 4>::from([0.0, 0.0, i[3], 0.0]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[1]]); let t = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[3]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f64, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 4>::from([i[1], 0.0, 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 4>::from([0.0, i[1], 0.0, 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 4>::from([0.0, 0.0, i[1], 0.0]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[1]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_vector4_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Vector::<f64, 4>::from([i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 4>::from([i[1], 0.0, 0.0, 0.0]); let t = Vector::<f64, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<u64, 4>::from([i[3].to_bits(), 0, 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 4>::from([0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 4>::from([0.0, i[1], 0.0, 0.0]); let t = Vector::<f64, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<u64, 4>::from([0, i[3].to_bits(), 0, 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 4>::from([0.0, 0.0, i[1], 0.0]); let t = Vector::<f64, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<u64, 4>::from([0, 0, i[3].to_bits(), 0]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[1]]); let t = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<u64, 4>::from([0, 0, 0, i[3].to_bits()]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_vector5_f64(i: &[f64; 3], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f64, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_vector5_f64(i: &[f64; 3], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f64, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); let t = Vector::<f64, 5>::from([i[2], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); let t = Vector::<f64, 5>::from([0.0, i[2], 0.0, 0.0, 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); let t = Vector::<f64, 5>::from([0.0, 0.0, i[2], 0.0, 0.0]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); let t = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[2], 0.0]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); let t = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[2]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f64, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f64, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); let t = Vector::<f64, 5>::from([i[2], 0.0, 0.0, 0.0, 0.0]);let u = Vector::<f64, 5>::from([i[3], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); let t = Vector::<f64, 5>::from([0.0, i[2], 0.0, 0.0, 0.0]);let u = Vector::<f64, 5>::from([0.0, i[3], 0.0, 0.0, 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); let t = Vector::<f64, 5>::from([0.0, 0.0, i[2], 0.0, 0.0]);let u = Vector::<f64, 5>::from([0.0, 0.0, i[3], 0.0, 0.0]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); let t = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[2], 0.0]);let u = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[3], 0.0]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); let t = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[2]]);let u = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[3]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f64, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_vector5_f64(i: &[f64; 4], o: &mut [u8; 5]) -> bool {
    { let x = Vector::<f64, 5>::from([i[0], 0.0, 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([i[1], 0.0, 0.0, 0.0, 0.0]); let t = Vector::<f64, 5>::from([i[2], 0.0, 0.0, 0.0, 0.0]);let u = Vector::<u64, 5>::from([i[3].to_bits(), 0, 0, 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, i[0], 0.0, 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, i[1], 0.0, 0.0, 0.0]); let t = Vector::<f64, 5>::from([0.0, i[2], 0.0, 0.0, 0.0]);let u = Vector::<u64, 5>::from([0, i[3].to_bits(), 0, 0, 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, i[0], 0.0, 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, i[1], 0.0, 0.0]); let t = Vector::<f64, 5>::from([0.0, 0.0, i[2], 0.0, 0.0]);let u = Vector::<u64, 5>::from([0, 0, i[3].to_bits(), 0, 0]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[0], 0.0]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[1], 0.0]); let t = Vector::<f64, 5>::from([0.0, 0.0, 0.0, i[2], 0.0]);let u = Vector::<u64, 5>::from([0, 0, 0, i[3].to_bits(), 0]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[0]]); let z = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[1]]); let t = Vector::<f64, 5>::from([0.0, 0.0, 0.0, 0.0, i[2]]);let u = Vector::<u64, 5>::from([0, 0, 0, 0, i[3].to_bits()]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_point1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_point1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); let t = Vector::<f64, 1>::from([i[2]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); let t = Vector::<f64, 1>::from([i[2]]);let u = Vector::<f64, 1>::from([i[3]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_point1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 1>::from([i[0]]); let z = Point::<f64, 1>::from([i[1]]); let t = Vector::<f64, 1>::from([i[2]]);let u = Vector::<u64, 1>::from([i[3].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_point2_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_point2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); let t = Vector::<f64, 2>::from([i[4], i[5]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_point2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_point2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); let t = Vector::<f64, 2>::from([i[4], i[5]]);let u = Vector::<f64, 2>::from([i[6], i[7]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_point2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_point2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 2>::from([i[0], i[1]]); let z = Point::<f64, 2>::from([i[2], i[3]]); let t = Vector::<f64, 2>::from([i[4], i[5]]);let u = Vector::<u64, 2>::from([i[6].to_bits(), i[7].to_bits()]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_point3_f64(i: &[f64; 7], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Point::<f64, 3>::from([i[3], i[4], i[5]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[6]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[6]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_point3_f64(i: &[f64; 9], o: &mut [u8; 2]) -> bool {
    let x = Point::<f64, 3>::from([i[0], i[1], i[2]]); let z = Point::<f64, 3>::from([i[3], i[4], i[5]]); let t = Vector::<f64, 3>::from([i[6], i[7], i[8]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_point3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f64, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Point::<f64, 3>::from([0.0, i[0], 0.0]); let z = Point::<f64, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Point::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f64, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_point3_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f64, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f64, 3>::from([i[2], 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Point::<f64, 3>::from([0.0, i[0], 0.0]); let z = Point::<f64, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f64, 3>::from([0.0, i[2], 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Point::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f64, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f64, 3>::from([0.0, 0.0, i[2]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f64, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Point::<f64, 3>::from([0.0, i[0], 0.0]); let z = Point::<f64, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Point::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f64, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f64, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f64, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<f64, 3>::from([i[3], 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f64, 3>::from([0.0, i[0], 0.0]); let z = Point::<f64, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f64, 3>::from([0.0, i[2], 0.0]);let u = Vector::<f64, 3>::from([0.0, i[3], 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f64, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f64, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<f64, 3>::from([0.0, 0.0, i[3]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f64, 3>::from([i[1], 0.0, 0.0]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Point::<f64, 3>::from([0.0, i[0], 0.0]); let z = Point::<f64, 3>::from([0.0, i[1], 0.0]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Point::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f64, 3>::from([0.0, 0.0, i[1]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_point3_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Point::<f64, 3>::from([i[0], 0.0, 0.0]); let z = Point::<f64, 3>::from([i[1], 0.0, 0.0]); let t = Vector::<f64, 3>::from([i[2], 0.0, 0.0]);let u = Vector::<u64, 3>::from([i[3].to_bits(), 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f64, 3>::from([0.0, i[0], 0.0]); let z = Point::<f64, 3>::from([0.0, i[1], 0.0]); let t = Vector::<f64, 3>::from([0.0, i[2], 0.0]);let u = Vector::<u64, 3>::from([0, i[3].to_bits(), 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Point::<f64, 3>::from([0.0, 0.0, i[0]]); let z = Point::<f64, 3>::from([0.0, 0.0, i[1]]); let t = Vector::<f64, 3>::from([0.0, 0.0, i[2]]);let u = Vector::<u64, 3>::from([0, 0, i[3].to_bits()]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_matrix1x1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_matrix1x1_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); let t = Matrix::<f64, 1, 1>::from([[i[2]]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); let t = Matrix::<f64, 1, 1>::from([[i[2]]]);let u = Matrix::<f64, 1, 1>::from([[i[3]]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_matrix1x1_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 1>::from([[i[0]]]); let z = Matrix::<f64, 1, 1>::from([[i[1]]]); let t = Matrix::<f64, 1, 1>::from([[i[2]]]);let u = Matrix::<u64, 1, 1>::from([[i[3].to_bits()]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix2x2_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f64, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix2x2_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f64, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 2>::from([[i[2], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f64, 2, 2>::from([[0.0, i[2]], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[2], 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[2]]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f64, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f64, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 2>::from([[i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<f64, 2, 2>::from([[i[3], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f64, 2, 2>::from([[0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<f64, 2, 2>::from([[0.0, i[3]], [0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[3], 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[3]]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f64, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix2x2_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Matrix::<f64, 2, 2>::from([[i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 2>::from([[i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<u64, 2, 2>::from([[i[3].to_bits(), 0], [0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f64, 2, 2>::from([[0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<u64, 2, 2>::from([[0, i[3].to_bits()], [0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<u64, 2, 2>::from([[0, 0], [i[3].to_bits(), 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f64, 2, 2>::from([[0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<u64, 2, 2>::from([[0, 0], [0, i[3].to_bits()]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_matrix1x2_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f64, 1, 2>::from([[i[2]], [i[3]]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_matrix1x2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f64, 1, 2>::from([[i[2]], [i[3]]]); let t = Matrix::<f64, 1, 2>::from([[i[4]], [i[5]]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_matrix1x2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f64, 1, 2>::from([[i[2]], [i[3]]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_matrix1x2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f64, 1, 2>::from([[i[2]], [i[3]]]); let t = Matrix::<f64, 1, 2>::from([[i[4]], [i[5]]]);let u = Matrix::<f64, 1, 2>::from([[i[6]], [i[7]]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_matrix1x2_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f64, 1, 2>::from([[i[2]], [i[3]]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_matrix1x2_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Matrix::<f64, 1, 2>::from([[i[0]], [i[1]]]); let z = Matrix::<f64, 1, 2>::from([[i[2]], [i[3]]]); let t = Matrix::<f64, 1, 2>::from([[i[4]], [i[5]]]);let u = Matrix::<u64, 1, 2>::from([[i[6].to_bits()], [i[7].to_bits()]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix3x2_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix3x2_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 2>::from([[i[3], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 2>::from([[0.0, i[3], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[3]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[3], 0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[3], 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[3]]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix3x2_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 3, 2>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 2>::from([[i[3].to_bits(), 0, 0], [0, 0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 2>::from([[0, i[3].to_bits(), 0], [0, 0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 2>::from([[0, 0, i[3].to_bits()], [0, 0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<u64, 3, 2>::from([[0, 0, 0], [i[3].to_bits(), 0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<u64, 3, 2>::from([[0, 0, 0], [0, i[3].to_bits(), 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f64, 3, 2>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<u64, 3, 2>::from([[0, 0, 0], [0, 0, i[3].to_bits()]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix2x3_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix2x3_f64(i: &[f64; 3], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[i[2], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, i[2]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[2], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[2]], [0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[2], 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[2]]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[i[2], 0.0], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<f64, 2, 3>::from([[i[3], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, i[2]], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<f64, 2, 3>::from([[0.0, i[3]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[3], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[3]], [0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[3], 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[3]]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix2x3_f64(i: &[f64; 4], o: &mut [u8; 6]) -> bool {
    { let x = Matrix::<f64, 2, 3>::from([[i[0], 0.0], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[i[1], 0.0], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[i[2], 0.0], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<u64, 2, 3>::from([[i[3].to_bits(), 0], [0, 0], [0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, i[0]], [0.0, 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, i[1]], [0.0, 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, i[2]], [0.0, 0.0], [0.0, 0.0]]);let u = Matrix::<u64, 2, 3>::from([[0, i[3].to_bits()], [0, 0], [0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[0], 0.0], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[1], 0.0], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [i[2], 0.0], [0.0, 0.0]]);let u = Matrix::<u64, 2, 3>::from([[0, 0], [i[3].to_bits(), 0], [0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[0]], [0.0, 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[1]], [0.0, 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, i[2]], [0.0, 0.0]]);let u = Matrix::<u64, 2, 3>::from([[0, 0], [0, i[3].to_bits()], [0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[0], 0.0]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[1], 0.0]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [i[2], 0.0]]);let u = Matrix::<u64, 2, 3>::from([[0, 0], [0, 0], [i[3].to_bits(), 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[0]]]); let z = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[1]]]); let t = Matrix::<f64, 2, 3>::from([[0.0, 0.0], [0.0, 0.0], [0.0, i[2]]]);let u = Matrix::<u64, 2, 3>::from([[0, 0], [0, 0], [0, i[3].to_bits()]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix3x3_f64(i: &[f64; 3], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f64, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[7] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[8] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix3x3_f64(i: &[f64; 3], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f64, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[2], 0.0]]); o[7] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]); o[8] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f64, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[6] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[7] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[8] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f64, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[i[3], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, i[3], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[3]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[3], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[3], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[3]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[3], 0.0, 0.0]]); o[6] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[3], 0.0]]); o[7] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[3]]]); o[8] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f64, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); o[6] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); o[7] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); o[8] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix3x3_f64(i: &[f64; 4], o: &mut [u8; 9]) -> bool {
    { let x = Matrix::<f64, 3, 3>::from([[i[0], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[i[1], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[i[2], 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[i[3].to_bits(), 0, 0], [0, 0, 0], [0, 0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, i[0], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, i[1], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, i[2], 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, i[3].to_bits(), 0], [0, 0, 0], [0, 0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[0]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[1]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, i[2]], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, i[3].to_bits()], [0, 0, 0], [0, 0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[0], 0.0, 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[1], 0.0, 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [i[2], 0.0, 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, 0], [i[3].to_bits(), 0, 0], [0, 0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[0], 0.0], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[1], 0.0], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, i[2], 0.0], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, 0], [0, i[3].to_bits(), 0], [0, 0, 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[0]], [0.0, 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[1]], [0.0, 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, i[2]], [0.0, 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, 0], [0, 0, i[3].to_bits()], [0, 0, 0]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[0], 0.0, 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[1], 0.0, 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [i[2], 0.0, 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, 0], [0, 0, 0], [i[3].to_bits(), 0, 0]]); o[6] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[0], 0.0]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[1], 0.0]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, i[2], 0.0]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, 0], [0, 0, 0], [0, i[3].to_bits(), 0]]); o[7] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[0]]]); let z = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[1]]]); let t = Matrix::<f64, 3, 3>::from([[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, i[2]]]);let u = Matrix::<u64, 3, 3>::from([[0, 0, 0], [0, 0, 0], [0, 0, i[3].to_bits()]]); o[8] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_matrix4x4_f64(i: &[f64; 3], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f64, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); o[13] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); o[14] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); o[15] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_matrix4x4_f64(i: &[f64; 3], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f64, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0]]); o[13] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0]]); o[14] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]]]); o[15] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f64, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); o[13] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); o[14] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); o[15] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f64, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[i[3], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, i[3], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[3], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[3]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[3], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[3], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[3], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[3]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[3], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[3], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[3], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[3]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[3], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[3], 0.0, 0.0]]); o[13] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[3], 0.0]]); o[14] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]]]);let u = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[3]]]); o[15] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f64, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[4] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[5] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[6] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[7] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[8] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); o[9] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); o[10] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); o[11] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); o[12] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); o[13] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); o[14] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); o[15] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_matrix4x4_f64(i: &[f64; 4], o: &mut [u8; 16]) -> bool {
    { let x = Matrix::<f64, 4, 4>::from([[i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[i[3].to_bits(), 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, i[3].to_bits(), 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, i[3].to_bits(), 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, i[3].to_bits()], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [i[3].to_bits(), 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[4] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, i[3].to_bits(), 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[5] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, i[3].to_bits(), 0], [0, 0, 0, 0], [0, 0, 0, 0]]); o[6] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, i[3].to_bits()], [0, 0, 0, 0], [0, 0, 0, 0]]); o[7] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [i[3].to_bits(), 0, 0, 0], [0, 0, 0, 0]]); o[8] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, i[3].to_bits(), 0, 0], [0, 0, 0, 0]]); o[9] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, i[3].to_bits(), 0], [0, 0, 0, 0]]); o[10] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]], [0.0, 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]], [0.0, 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]], [0.0, 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, i[3].to_bits()], [0, 0, 0, 0]]); o[11] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[0], 0.0, 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[1], 0.0, 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [i[2], 0.0, 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [i[3].to_bits(), 0, 0, 0]]); o[12] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[0], 0.0, 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[1], 0.0, 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, i[2], 0.0, 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, i[3].to_bits(), 0, 0]]); o[13] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[0], 0.0]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[1], 0.0]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, i[2], 0.0]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, i[3].to_bits(), 0]]); o[14] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[0]]]); let z = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[1]]]); let t = Matrix::<f64, 4, 4>::from([[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, i[2]]]);let u = Matrix::<u64, 4, 4>::from([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, i[3].to_bits()]]); o[15] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_quaternion_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f64>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f64>::new(i[1], 0.0, 0.0, 0.0); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Quaternion::<f64>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f64>::new(0.0, i[1], 0.0, 0.0); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f64>::new(0.0, 0.0, i[1], 0.0); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[1]); o[3] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_each_quaternion_f64(i: &[f64; 3], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f64>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f64>::new(i[1], 0.0, 0.0, 0.0); let t = Vector::<f64, 4>::from([i[2], 0.0, 0.0, 0.0]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Quaternion::<f64>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f64>::new(0.0, i[1], 0.0, 0.0); let t = Vector::<f64, 4>::from([0.0, i[2], 0.0, 0.0]); o[1] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f64>::new(0.0, 0.0, i[1], 0.0); let t = Vector::<f64, 4>::from([0.0, 0.0, i[2], 0.0]); o[2] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[1]); let t = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[2]]); o[3] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f64>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f64>::new(i[1], 0.0, 0.0, 0.0); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Quaternion::<f64>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f64>::new(0.0, i[1], 0.0, 0.0); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f64>::new(0.0, 0.0, i[1], 0.0); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[1]); o[3] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f64>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f64>::new(i[1], 0.0, 0.0, 0.0); let t = Vector::<f64, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<f64, 4>::from([i[3], 0.0, 0.0, 0.0]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f64>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f64>::new(0.0, i[1], 0.0, 0.0); let t = Vector::<f64, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<f64, 4>::from([0.0, i[3], 0.0, 0.0]); o[1] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f64>::new(0.0, 0.0, i[1], 0.0); let t = Vector::<f64, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<f64, 4>::from([0.0, 0.0, i[3], 0.0]); o[2] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[1]); let t = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[3]]); o[3] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f64>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f64>::new(i[1], 0.0, 0.0, 0.0); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Quaternion::<f64>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f64>::new(0.0, i[1], 0.0, 0.0); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f64>::new(0.0, 0.0, i[1], 0.0); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[1]); o[3] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_each_quaternion_f64(i: &[f64; 4], o: &mut [u8; 4]) -> bool {
    { let x = Quaternion::<f64>::new(i[0], 0.0, 0.0, 0.0); let z = Quaternion::<f64>::new(i[1], 0.0, 0.0, 0.0); let t = Vector::<f64, 4>::from([i[2], 0.0, 0.0, 0.0]);let u = Vector::<u64, 4>::from([i[3].to_bits(), 0, 0, 0]); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f64>::new(0.0, i[0], 0.0, 0.0); let z = Quaternion::<f64>::new(0.0, i[1], 0.0, 0.0); let t = Vector::<f64, 4>::from([0.0, i[2], 0.0, 0.0]);let u = Vector::<u64, 4>::from([0, i[3].to_bits(), 0, 0]); o[1] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, i[0], 0.0); let z = Quaternion::<f64>::new(0.0, 0.0, i[1], 0.0); let t = Vector::<f64, 4>::from([0.0, 0.0, i[2], 0.0]);let u = Vector::<u64, 4>::from([0, 0, i[3].to_bits(), 0]); o[2] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } { let x = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[0]); let z = Quaternion::<f64>::new(0.0, 0.0, 0.0, i[1]); let t = Vector::<f64, 4>::from([0.0, 0.0, 0.0, i[2]]);let u = Vector::<u64, 4>::from([0, 0, 0, i[3].to_bits()]); o[3] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_complex_f64(i: &[f64; 5], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[4]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[4]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_complex_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); let t = Complex::<f64>::new(i[4], i[5]); o[0] = approx_cmp::AbsDiffEq::abs_diff_eq(&x, &z, &t) as u8; o[1] = approx_cmp::AbsDiffEq::abs_diff_ne(&x, &z, &t) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_complex_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[4], &i[5]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[4], &i[5]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_complex_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); let t = Complex::<f64>::new(i[4], i[5]);let u = Complex::<f64>::new(i[6], i[7]); o[0] = approx_cmp::RelativeEq::relative_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::RelativeEq::relative_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_complex_f64(i: &[f64; 6], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[4], &i[5].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[4], &i[5].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_complex_f64(i: &[f64; 8], o: &mut [u8; 2]) -> bool {
    let x = Complex::<f64>::new(i[0], i[1]); let z = Complex::<f64>::new(i[2], i[3]); let t = Complex::<f64>::new(i[4], i[5]);let u = Complex::<u64>::new(i[6].to_bits(), i[7].to_bits()); o[0] = approx_cmp::UlpsEq::ulps_eq(&x, &z, &t, &u) as u8; o[1] = approx_cmp::UlpsEq::ulps_ne(&x, &z, &t, &u) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_radians_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_radians_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_radians_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_degrees_f64(i: &[f64; 3], o: &mut [u8; 2]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[2]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_degrees_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; o[1] = approx_cmp::RelativeAllEq::relative_all_ne(&x, &z, &i[2], &i[3]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_degrees_f64(i: &[f64; 4], o: &mut [u8; 2]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; o[1] = approx_cmp::UlpsAllEq::ulps_all_ne(&x, &z, &i[2], &i[3].to_bits()) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_euler_f64(i: &[f64; 7], o: &mut [u8; 2]) -> bool {
    let x = Euler::<Radians<f64>>::new(Radians(i[0]), Radians(i[1]), Radians(i[2])); let z = Euler::<Radians<f64>>::new(Radians(i[3]), Radians(i[4]), Radians(i[5])); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[6]) as u8; o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_ne(&x, &z, &i[6]) as u8; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_abs_diff_all_each_euler_f64(i: &[f64; 3], o: &mut [u8; 3]) -> bool {
    { let x = Euler::<Radians<f64>>::new(Radians(i[0]), Radians(0.0), Radians(0.0)); let z = Euler::<Radians<f64>>::new(Radians(i[1]), Radians(0.0), Radians(0.0)); o[0] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Euler::<Radians<f64>>::new(Radians(0.0), Radians(i[0]), Radians(0.0)); let z = Euler::<Radians<f64>>::new(Radians(0.0), Radians(i[1]), Radians(0.0)); o[1] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } { let x = Euler::<Radians<f64>>::new(Radians(0.0), Radians(0.0), Radians(i[0])); let z = Euler::<Radians<f64>>::new(Radians(0.0), Radians(0.0), Radians(i[1])); o[2] = approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&x, &z, &i[2]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_relative_all_each_euler_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Euler::<Radians<f64>>::new(Radians(i[0]), Radians(0.0), Radians(0.0)); let z = Euler::<Radians<f64>>::new(Radians(i[1]), Radians(0.0), Radians(0.0)); o[0] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Euler::<Radians<f64>>::new(Radians(0.0), Radians(i[0]), Radians(0.0)); let z = Euler::<Radians<f64>>::new(Radians(0.0), Radians(i[1]), Radians(0.0)); o[1] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } { let x = Euler::<Radians<f64>>::new(Radians(0.0), Radians(0.0), Radians(i[0])); let z = Euler::<Radians<f64>>::new(Radians(0.0), Radians(0.0), Radians(i[1])); o[2] = approx_cmp::RelativeAllEq::relative_all_eq(&x, &z, &i[2], &i[3]) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C23_ulps_all_each_euler_f64(i: &[f64; 4], o: &mut [u8; 3]) -> bool {
    { let x = Euler::<Radians<f64>>::new(Radians(i[0]), Radians(0.0), Radians(0.0)); let z = Euler::<Radians<f64>>::new(Radians(i[1]), Radians(0.0), Radians(0.0)); o[0] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Euler::<Radians<f64>>::new(Radians(0.0), Radians(i[0]), Radians(0.0)); let z = Euler::<Radians<f64>>::new(Radians(0.0), Radians(i[1]), Radians(0.0)); o[1] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } { let x = Euler::<Radians<f64>>::new(Radians(0.0), Radians(0.0), Radians(i[0])); let z = Euler::<Radians<f64>>::new(Radians(0.0), Radians(0.0), Radians(i[1])); o[2] = approx_cmp::UlpsAllEq::ulps_all_eq(&x, &z, &i[2], &i[3].to_bits()) as u8; } true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C16_arg_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let z = Complex::<f32>::new(i[0], i[1]); o[0] = z.arg(); o[1] = z.ln().imaginary(); o[2] = z.polar_decomposition().1.0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C16_arg_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let z = Complex::<f64>::new(i[0], i[1]); o[0] = z.arg(); o[1] = z.ln().imaginary(); o[2] = z.polar_decomposition().1.0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_radians_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_radians_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_radians_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_neg_radians_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let x = Radians(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_degrees_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_degrees_i32(i: &[i32; 2], o: &mut [i32; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_degrees_i32(i: &[i32; 2], o: &mut [i32; 3]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_neg_degrees_i32(i: &[i32; 1], o: &mut [i32; 2]) -> bool {
    let x = Degrees(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_radians_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_radians_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_radians_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_degrees_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_degrees_u8(i: &[u8; 2], o: &mut [u8; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_degrees_u8(i: &[u8; 2], o: &mut [u8; 3]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_radians_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_radians_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_radians_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_div_radians_f32(i: &[f32; 2], o: &mut [f32; 7]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x / s).0; o[1] = (&x / s).0; o[2] = ({ let mut y = x; y /= s; y }).0; o[3] = x / z; o[4] = x / &z; o[5] = &x / z; o[6] = &x / &z; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_rem_radians_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x % z).0; o[1] = (x % &z).0; o[2] = (&x % z).0; o[3] = (&x % &z).0; o[4] = ({ let mut y = x; y %= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_neg_radians_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let x = Radians(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_degrees_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_degrees_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_degrees_f32(i: &[f32; 2], o: &mut [f32; 3]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_div_degrees_f32(i: &[f32; 2], o: &mut [f32; 7]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x / s).0; o[1] = (&x / s).0; o[2] = ({ let mut y = x; y /= s; y }).0; o[3] = x / z; o[4] = x / &z; o[5] = &x / z; o[6] = &x / &z; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_rem_degrees_f32(i: &[f32; 2], o: &mut [f32; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x % z).0; o[1] = (x % &z).0; o[2] = (&x % z).0; o[3] = (&x % &z).0; o[4] = ({ let mut y = x; y %= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_neg_degrees_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let x = Degrees(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sin_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = Angle::sin(Radians(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_cos_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = Angle::cos(Radians(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_tan_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = Angle::tan(Radians(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_asin_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <Radians<f32> as Angle>::asin(i[0]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_acos_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <Radians<f32> as Angle>::acos(i[0]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_atan_radians_f32(i: &[f32; 1], o: &mut [f32; 1]) -> bool {
    o[0] = <Radians<f32> as Angle>::atan(i[0]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_atan2_radians_f32(i: &[f32; 2], o: &mut [f32; 1]) -> bool {
    o[0] = <Radians<f32> as Angle>::atan2(i[0], i[1]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sin_cos_radians_f32(i: &[f32; 1], o: &mut [f32; 2]) -> bool {
    let (a, b) = Angle::sin_cos(Radians(i[0])); o[0] = a; o[1] = b; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_radians_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_radians_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_radians_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_div_radians_f64(i: &[f64; 2], o: &mut [f64; 7]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x / s).0; o[1] = (&x / s).0; o[2] = ({ let mut y = x; y /= s; y }).0; o[3] = x / z; o[4] = x / &z; o[5] = &x / z; o[6] = &x / &z; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_rem_radians_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Radians(i[0]); let z = Radians(i[1]); let s = i[1]; o[0] = (x % z).0; o[1] = (x % &z).0; o[2] = (&x % z).0; o[3] = (&x % &z).0; o[4] = ({ let mut y = x; y %= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_neg_radians_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let x = Radians(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_add_degrees_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x + z).0; o[1] = (x + &z).0; o[2] = (&x + z).0; o[3] = (&x + &z).0; o[4] = ({ let mut y = x; y += z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sub_degrees_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x - z).0; o[1] = (x - &z).0; o[2] = (&x - z).0; o[3] = (&x - &z).0; o[4] = ({ let mut y = x; y -= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_mul_degrees_f64(i: &[f64; 2], o: &mut [f64; 3]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x * s).0; o[1] = (&x * s).0; o[2] = ({ let mut y = x; y *= s; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_div_degrees_f64(i: &[f64; 2], o: &mut [f64; 7]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x / s).0; o[1] = (&x / s).0; o[2] = ({ let mut y = x; y /= s; y }).0; o[3] = x / z; o[4] = x / &z; o[5] = &x / z; o[6] = &x / &z; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_rem_degrees_f64(i: &[f64; 2], o: &mut [f64; 5]) -> bool {
    let x = Degrees(i[0]); let z = Degrees(i[1]); let s = i[1]; o[0] = (x % z).0; o[1] = (x % &z).0; o[2] = (&x % z).0; o[3] = (&x % &z).0; o[4] = ({ let mut y = x; y %= z; y }).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_neg_degrees_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let x = Degrees(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sin_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = Angle::sin(Radians(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_cos_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = Angle::cos(Radians(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_tan_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = Angle::tan(Radians(i[0])); true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_asin_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <Radians<f64> as Angle>::asin(i[0]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_acos_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <Radians<f64> as Angle>::acos(i[0]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_atan_radians_f64(i: &[f64; 1], o: &mut [f64; 1]) -> bool {
    o[0] = <Radians<f64> as Angle>::atan(i[0]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_atan2_radians_f64(i: &[f64; 2], o: &mut [f64; 1]) -> bool {
    o[0] = <Radians<f64> as Angle>::atan2(i[0], i[1]).0; true
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn l_C17_sin_cos_radians_f64(i: &[f64; 1], o: &mut [f64; 2]) -> bool {
    let (a, b) = Angle::sin_cos(Radians(i[0])); o[0] = a; o[1] = b; true
}
