// Written by gen.py.
use ir_lib::*;
use ir_spec::*;
pub type F = unsafe fn(*const u8, *mut u8) -> bool;
pub static TABLE: &[(&str, &str, usize, &str, usize, &str, F, F)] = &[
    ("C25/mul_vector1_u8", "u8", 2, "u8", 4, "all", |i, o| unsafe { l_C25_mul_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_mul_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_point1_u8", "u8", 2, "u8", 2, "all", |i, o| unsafe { l_C25_mul_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C25_mul_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C25/mul_matrix1x1_u8", "u8", 2, "u8", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_matrix1x2_u8", "u8", 3, "u8", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }),
    ("C25/mul_matrix1x3_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C25/mul_matrix1x4_u8", "u8", 5, "u8", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }),
    ("C25/mul_vector2_u8", "u8", 3, "u8", 8, "all", |i, o| unsafe { l_C25_mul_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }, |i, o| unsafe { r_C25_mul_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }),
    ("C25/mul_point2_u8", "u8", 3, "u8", 4, "all", |i, o| unsafe { l_C25_mul_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_mul_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_matrix2x1_u8", "u8", 3, "u8", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }),
    ("C25/mul_matrix2x2_u8", "u8", 5, "u8", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }),
    ("C25/mul_matrix2x3_u8", "u8", 7, "u8", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 24])) }),
    ("C25/mul_matrix2x4_u8", "u8", 9, "u8", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 32])) }),
    ("C25/mul_vector3_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C25_mul_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C25_mul_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C25/mul_point3_u8", "u8", 4, "u8", 6, "all", |i, o| unsafe { l_C25_mul_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C25_mul_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C25/mul_matrix3x1_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C25/mul_matrix3x2_u8", "u8", 7, "u8", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 24])) }),
    ("C25/mul_matrix3x3_u8", "u8", 10, "u8", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 36])) }),
    ("C25/mul_matrix3x4_u8", "u8", 13, "u8", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 48])) }),
    ("C25/mul_vector4_u8", "u8", 5, "u8", 16, "all", |i, o| unsafe { l_C25_mul_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C25_mul_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }),
    ("C25/mul_matrix4x1_u8", "u8", 5, "u8", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }),
    ("C25/mul_matrix4x2_u8", "u8", 9, "u8", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 32])) }),
    ("C25/mul_matrix4x3_u8", "u8", 13, "u8", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 48])) }),
    ("C25/mul_matrix4x4_u8", "u8", 17, "u8", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 64])) }),
    ("C25/mul_quaternion_u8", "u8", 5, "u8", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 16])) }),
    ("C25/mul_complex_u8", "u8", 3, "u8", 8, "all", |i, o| unsafe { l_C25_mul_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }, |i, o| unsafe { r_C25_mul_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }),
    ("C25/add_complex_u8", "u8", 3, "u8", 8, "all", |i, o| unsafe { l_C25_add_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }, |i, o| unsafe { r_C25_add_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 8])) }),
    ("C25/sub_complex_re_u8", "u8", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_magnitude_u8", "u8", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_vector1_u16", "u16", 2, "u16", 4, "all", |i, o| unsafe { l_C25_mul_vector1_u16(&*(i as *const [u16; 2]), &mut *(o as *mut [u16; 4])) }, |i, o| unsafe { r_C25_mul_vector1_u16(&*(i as *const [u16; 2]), &mut *(o as *mut [u16; 4])) }),
    ("C25/mul_point1_u16", "u16", 2, "u16", 2, "all", |i, o| unsafe { l_C25_mul_point1_u16(&*(i as *const [u16; 2]), &mut *(o as *mut [u16; 2])) }, |i, o| unsafe { r_C25_mul_point1_u16(&*(i as *const [u16; 2]), &mut *(o as *mut [u16; 2])) }),
    ("C25/mul_matrix1x1_u16", "u16", 2, "u16", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_u16(&*(i as *const [u16; 2]), &mut *(o as *mut [u16; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_u16(&*(i as *const [u16; 2]), &mut *(o as *mut [u16; 4])) }),
    ("C25/mul_matrix1x2_u16", "u16", 3, "u16", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }),
    ("C25/mul_matrix1x3_u16", "u16", 4, "u16", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 12])) }),
    ("C25/mul_matrix1x4_u16", "u16", 5, "u16", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }),
    ("C25/mul_vector2_u16", "u16", 3, "u16", 8, "all", |i, o| unsafe { l_C25_mul_vector2_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }, |i, o| unsafe { r_C25_mul_vector2_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }),
    ("C25/mul_point2_u16", "u16", 3, "u16", 4, "all", |i, o| unsafe { l_C25_mul_point2_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 4])) }, |i, o| unsafe { r_C25_mul_point2_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 4])) }),
    ("C25/mul_matrix2x1_u16", "u16", 3, "u16", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }),
    ("C25/mul_matrix2x2_u16", "u16", 5, "u16", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }),
    ("C25/mul_matrix2x3_u16", "u16", 7, "u16", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_u16(&*(i as *const [u16; 7]), &mut *(o as *mut [u16; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_u16(&*(i as *const [u16; 7]), &mut *(o as *mut [u16; 24])) }),
    ("C25/mul_matrix2x4_u16", "u16", 9, "u16", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_u16(&*(i as *const [u16; 9]), &mut *(o as *mut [u16; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_u16(&*(i as *const [u16; 9]), &mut *(o as *mut [u16; 32])) }),
    ("C25/mul_vector3_u16", "u16", 4, "u16", 12, "all", |i, o| unsafe { l_C25_mul_vector3_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 12])) }, |i, o| unsafe { r_C25_mul_vector3_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 12])) }),
    ("C25/mul_point3_u16", "u16", 4, "u16", 6, "all", |i, o| unsafe { l_C25_mul_point3_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 6])) }, |i, o| unsafe { r_C25_mul_point3_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 6])) }),
    ("C25/mul_matrix3x1_u16", "u16", 4, "u16", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_u16(&*(i as *const [u16; 4]), &mut *(o as *mut [u16; 12])) }),
    ("C25/mul_matrix3x2_u16", "u16", 7, "u16", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_u16(&*(i as *const [u16; 7]), &mut *(o as *mut [u16; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_u16(&*(i as *const [u16; 7]), &mut *(o as *mut [u16; 24])) }),
    ("C25/mul_matrix3x3_u16", "u16", 10, "u16", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_u16(&*(i as *const [u16; 10]), &mut *(o as *mut [u16; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_u16(&*(i as *const [u16; 10]), &mut *(o as *mut [u16; 36])) }),
    ("C25/mul_matrix3x4_u16", "u16", 13, "u16", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_u16(&*(i as *const [u16; 13]), &mut *(o as *mut [u16; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_u16(&*(i as *const [u16; 13]), &mut *(o as *mut [u16; 48])) }),
    ("C25/mul_vector4_u16", "u16", 5, "u16", 16, "all", |i, o| unsafe { l_C25_mul_vector4_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }, |i, o| unsafe { r_C25_mul_vector4_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }),
    ("C25/mul_matrix4x1_u16", "u16", 5, "u16", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }),
    ("C25/mul_matrix4x2_u16", "u16", 9, "u16", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_u16(&*(i as *const [u16; 9]), &mut *(o as *mut [u16; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_u16(&*(i as *const [u16; 9]), &mut *(o as *mut [u16; 32])) }),
    ("C25/mul_matrix4x3_u16", "u16", 13, "u16", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_u16(&*(i as *const [u16; 13]), &mut *(o as *mut [u16; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_u16(&*(i as *const [u16; 13]), &mut *(o as *mut [u16; 48])) }),
    ("C25/mul_matrix4x4_u16", "u16", 17, "u16", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_u16(&*(i as *const [u16; 17]), &mut *(o as *mut [u16; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_u16(&*(i as *const [u16; 17]), &mut *(o as *mut [u16; 64])) }),
    ("C25/mul_quaternion_u16", "u16", 5, "u16", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_u16(&*(i as *const [u16; 5]), &mut *(o as *mut [u16; 16])) }),
    ("C25/mul_complex_u16", "u16", 3, "u16", 8, "all", |i, o| unsafe { l_C25_mul_complex_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }, |i, o| unsafe { r_C25_mul_complex_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }),
    ("C25/add_complex_u16", "u16", 3, "u16", 8, "all", |i, o| unsafe { l_C25_add_complex_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }, |i, o| unsafe { r_C25_add_complex_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 8])) }),
    ("C25/sub_complex_re_u16", "u16", 3, "u16", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u16; 4])) }),
    ("C25/sub_complex_magnitude_u16", "u16", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_u16(&*(i as *const [u16; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_vector1_u32", "u32", 2, "u32", 4, "all", |i, o| unsafe { l_C25_mul_vector1_u32(&*(i as *const [u32; 2]), &mut *(o as *mut [u32; 4])) }, |i, o| unsafe { r_C25_mul_vector1_u32(&*(i as *const [u32; 2]), &mut *(o as *mut [u32; 4])) }),
    ("C25/mul_point1_u32", "u32", 2, "u32", 2, "all", |i, o| unsafe { l_C25_mul_point1_u32(&*(i as *const [u32; 2]), &mut *(o as *mut [u32; 2])) }, |i, o| unsafe { r_C25_mul_point1_u32(&*(i as *const [u32; 2]), &mut *(o as *mut [u32; 2])) }),
    ("C25/mul_matrix1x1_u32", "u32", 2, "u32", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_u32(&*(i as *const [u32; 2]), &mut *(o as *mut [u32; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_u32(&*(i as *const [u32; 2]), &mut *(o as *mut [u32; 4])) }),
    ("C25/mul_matrix1x2_u32", "u32", 3, "u32", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }),
    ("C25/mul_matrix1x3_u32", "u32", 4, "u32", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 12])) }),
    ("C25/mul_matrix1x4_u32", "u32", 5, "u32", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }),
    ("C25/mul_vector2_u32", "u32", 3, "u32", 8, "all", |i, o| unsafe { l_C25_mul_vector2_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }, |i, o| unsafe { r_C25_mul_vector2_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }),
    ("C25/mul_point2_u32", "u32", 3, "u32", 4, "all", |i, o| unsafe { l_C25_mul_point2_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 4])) }, |i, o| unsafe { r_C25_mul_point2_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 4])) }),
    ("C25/mul_matrix2x1_u32", "u32", 3, "u32", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }),
    ("C25/mul_matrix2x2_u32", "u32", 5, "u32", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }),
    ("C25/mul_matrix2x3_u32", "u32", 7, "u32", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_u32(&*(i as *const [u32; 7]), &mut *(o as *mut [u32; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_u32(&*(i as *const [u32; 7]), &mut *(o as *mut [u32; 24])) }),
    ("C25/mul_matrix2x4_u32", "u32", 9, "u32", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_u32(&*(i as *const [u32; 9]), &mut *(o as *mut [u32; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_u32(&*(i as *const [u32; 9]), &mut *(o as *mut [u32; 32])) }),
    ("C25/mul_vector3_u32", "u32", 4, "u32", 12, "all", |i, o| unsafe { l_C25_mul_vector3_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 12])) }, |i, o| unsafe { r_C25_mul_vector3_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 12])) }),
    ("C25/mul_point3_u32", "u32", 4, "u32", 6, "all", |i, o| unsafe { l_C25_mul_point3_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 6])) }, |i, o| unsafe { r_C25_mul_point3_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 6])) }),
    ("C25/mul_matrix3x1_u32", "u32", 4, "u32", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_u32(&*(i as *const [u32; 4]), &mut *(o as *mut [u32; 12])) }),
    ("C25/mul_matrix3x2_u32", "u32", 7, "u32", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_u32(&*(i as *const [u32; 7]), &mut *(o as *mut [u32; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_u32(&*(i as *const [u32; 7]), &mut *(o as *mut [u32; 24])) }),
    ("C25/mul_matrix3x3_u32", "u32", 10, "u32", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_u32(&*(i as *const [u32; 10]), &mut *(o as *mut [u32; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_u32(&*(i as *const [u32; 10]), &mut *(o as *mut [u32; 36])) }),
    ("C25/mul_matrix3x4_u32", "u32", 13, "u32", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_u32(&*(i as *const [u32; 13]), &mut *(o as *mut [u32; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_u32(&*(i as *const [u32; 13]), &mut *(o as *mut [u32; 48])) }),
    ("C25/mul_vector4_u32", "u32", 5, "u32", 16, "all", |i, o| unsafe { l_C25_mul_vector4_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }, |i, o| unsafe { r_C25_mul_vector4_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }),
    ("C25/mul_matrix4x1_u32", "u32", 5, "u32", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }),
    ("C25/mul_matrix4x2_u32", "u32", 9, "u32", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_u32(&*(i as *const [u32; 9]), &mut *(o as *mut [u32; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_u32(&*(i as *const [u32; 9]), &mut *(o as *mut [u32; 32])) }),
    ("C25/mul_matrix4x3_u32", "u32", 13, "u32", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_u32(&*(i as *const [u32; 13]), &mut *(o as *mut [u32; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_u32(&*(i as *const [u32; 13]), &mut *(o as *mut [u32; 48])) }),
    ("C25/mul_matrix4x4_u32", "u32", 17, "u32", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_u32(&*(i as *const [u32; 17]), &mut *(o as *mut [u32; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_u32(&*(i as *const [u32; 17]), &mut *(o as *mut [u32; 64])) }),
    ("C25/mul_quaternion_u32", "u32", 5, "u32", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_u32(&*(i as *const [u32; 5]), &mut *(o as *mut [u32; 16])) }),
    ("C25/mul_complex_u32", "u32", 3, "u32", 8, "all", |i, o| unsafe { l_C25_mul_complex_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }, |i, o| unsafe { r_C25_mul_complex_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }),
    ("C25/add_complex_u32", "u32", 3, "u32", 8, "all", |i, o| unsafe { l_C25_add_complex_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }, |i, o| unsafe { r_C25_add_complex_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 8])) }),
    ("C25/sub_complex_re_u32", "u32", 3, "u32", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u32; 4])) }),
    ("C25/sub_complex_magnitude_u32", "u32", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_u32(&*(i as *const [u32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_vector1_u64", "u64", 2, "u64", 4, "all", |i, o| unsafe { l_C25_mul_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 4])) }, |i, o| unsafe { r_C25_mul_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 4])) }),
    ("C25/mul_point1_u64", "u64", 2, "u64", 2, "all", |i, o| unsafe { l_C25_mul_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 2])) }, |i, o| unsafe { r_C25_mul_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 2])) }),
    ("C25/mul_matrix1x1_u64", "u64", 2, "u64", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 4])) }),
    ("C25/mul_matrix1x2_u64", "u64", 3, "u64", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }),
    ("C25/mul_matrix1x3_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C25/mul_matrix1x4_u64", "u64", 5, "u64", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }),
    ("C25/mul_vector2_u64", "u64", 3, "u64", 8, "all", |i, o| unsafe { l_C25_mul_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }, |i, o| unsafe { r_C25_mul_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }),
    ("C25/mul_point2_u64", "u64", 3, "u64", 4, "all", |i, o| unsafe { l_C25_mul_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 4])) }, |i, o| unsafe { r_C25_mul_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 4])) }),
    ("C25/mul_matrix2x1_u64", "u64", 3, "u64", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }),
    ("C25/mul_matrix2x2_u64", "u64", 5, "u64", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }),
    ("C25/mul_matrix2x3_u64", "u64", 7, "u64", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 24])) }),
    ("C25/mul_matrix2x4_u64", "u64", 9, "u64", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 32])) }),
    ("C25/mul_vector3_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C25_mul_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C25_mul_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C25/mul_point3_u64", "u64", 4, "u64", 6, "all", |i, o| unsafe { l_C25_mul_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C25_mul_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 6])) }),
    ("C25/mul_matrix3x1_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C25/mul_matrix3x2_u64", "u64", 7, "u64", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 24])) }),
    ("C25/mul_matrix3x3_u64", "u64", 10, "u64", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 36])) }),
    ("C25/mul_matrix3x4_u64", "u64", 13, "u64", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 48])) }),
    ("C25/mul_vector4_u64", "u64", 5, "u64", 16, "all", |i, o| unsafe { l_C25_mul_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }, |i, o| unsafe { r_C25_mul_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }),
    ("C25/mul_matrix4x1_u64", "u64", 5, "u64", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }),
    ("C25/mul_matrix4x2_u64", "u64", 9, "u64", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 32])) }),
    ("C25/mul_matrix4x3_u64", "u64", 13, "u64", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 48])) }),
    ("C25/mul_matrix4x4_u64", "u64", 17, "u64", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 64])) }),
    ("C25/mul_quaternion_u64", "u64", 5, "u64", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 16])) }),
    ("C25/mul_complex_u64", "u64", 3, "u64", 8, "all", |i, o| unsafe { l_C25_mul_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }, |i, o| unsafe { r_C25_mul_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }),
    ("C25/add_complex_u64", "u64", 3, "u64", 8, "all", |i, o| unsafe { l_C25_add_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }, |i, o| unsafe { r_C25_add_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 8])) }),
    ("C25/sub_complex_re_u64", "u64", 3, "u64", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 4])) }),
    ("C25/sub_complex_magnitude_u64", "u64", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_vector1_u128", "u128", 2, "u128", 4, "all", |i, o| unsafe { l_C25_mul_vector1_u128(&*(i as *const [u128; 2]), &mut *(o as *mut [u128; 4])) }, |i, o| unsafe { r_C25_mul_vector1_u128(&*(i as *const [u128; 2]), &mut *(o as *mut [u128; 4])) }),
    ("C25/mul_point1_u128", "u128", 2, "u128", 2, "all", |i, o| unsafe { l_C25_mul_point1_u128(&*(i as *const [u128; 2]), &mut *(o as *mut [u128; 2])) }, |i, o| unsafe { r_C25_mul_point1_u128(&*(i as *const [u128; 2]), &mut *(o as *mut [u128; 2])) }),
    ("C25/mul_matrix1x1_u128", "u128", 2, "u128", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_u128(&*(i as *const [u128; 2]), &mut *(o as *mut [u128; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_u128(&*(i as *const [u128; 2]), &mut *(o as *mut [u128; 4])) }),
    ("C25/mul_matrix1x2_u128", "u128", 3, "u128", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }),
    ("C25/mul_matrix1x3_u128", "u128", 4, "u128", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 12])) }),
    ("C25/mul_matrix1x4_u128", "u128", 5, "u128", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }),
    ("C25/mul_vector2_u128", "u128", 3, "u128", 8, "all", |i, o| unsafe { l_C25_mul_vector2_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }, |i, o| unsafe { r_C25_mul_vector2_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }),
    ("C25/mul_point2_u128", "u128", 3, "u128", 4, "all", |i, o| unsafe { l_C25_mul_point2_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 4])) }, |i, o| unsafe { r_C25_mul_point2_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 4])) }),
    ("C25/mul_matrix2x1_u128", "u128", 3, "u128", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }),
    ("C25/mul_matrix2x2_u128", "u128", 5, "u128", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }),
    ("C25/mul_matrix2x3_u128", "u128", 7, "u128", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_u128(&*(i as *const [u128; 7]), &mut *(o as *mut [u128; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_u128(&*(i as *const [u128; 7]), &mut *(o as *mut [u128; 24])) }),
    ("C25/mul_matrix2x4_u128", "u128", 9, "u128", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_u128(&*(i as *const [u128; 9]), &mut *(o as *mut [u128; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_u128(&*(i as *const [u128; 9]), &mut *(o as *mut [u128; 32])) }),
    ("C25/mul_vector3_u128", "u128", 4, "u128", 12, "all", |i, o| unsafe { l_C25_mul_vector3_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 12])) }, |i, o| unsafe { r_C25_mul_vector3_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 12])) }),
    ("C25/mul_point3_u128", "u128", 4, "u128", 6, "all", |i, o| unsafe { l_C25_mul_point3_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 6])) }, |i, o| unsafe { r_C25_mul_point3_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 6])) }),
    ("C25/mul_matrix3x1_u128", "u128", 4, "u128", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_u128(&*(i as *const [u128; 4]), &mut *(o as *mut [u128; 12])) }),
    ("C25/mul_matrix3x2_u128", "u128", 7, "u128", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_u128(&*(i as *const [u128; 7]), &mut *(o as *mut [u128; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_u128(&*(i as *const [u128; 7]), &mut *(o as *mut [u128; 24])) }),
    ("C25/mul_matrix3x3_u128", "u128", 10, "u128", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_u128(&*(i as *const [u128; 10]), &mut *(o as *mut [u128; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_u128(&*(i as *const [u128; 10]), &mut *(o as *mut [u128; 36])) }),
    ("C25/mul_matrix3x4_u128", "u128", 13, "u128", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_u128(&*(i as *const [u128; 13]), &mut *(o as *mut [u128; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_u128(&*(i as *const [u128; 13]), &mut *(o as *mut [u128; 48])) }),
    ("C25/mul_vector4_u128", "u128", 5, "u128", 16, "all", |i, o| unsafe { l_C25_mul_vector4_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }, |i, o| unsafe { r_C25_mul_vector4_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }),
    ("C25/mul_matrix4x1_u128", "u128", 5, "u128", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }),
    ("C25/mul_matrix4x2_u128", "u128", 9, "u128", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_u128(&*(i as *const [u128; 9]), &mut *(o as *mut [u128; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_u128(&*(i as *const [u128; 9]), &mut *(o as *mut [u128; 32])) }),
    ("C25/mul_matrix4x3_u128", "u128", 13, "u128", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_u128(&*(i as *const [u128; 13]), &mut *(o as *mut [u128; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_u128(&*(i as *const [u128; 13]), &mut *(o as *mut [u128; 48])) }),
    ("C25/mul_matrix4x4_u128", "u128", 17, "u128", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_u128(&*(i as *const [u128; 17]), &mut *(o as *mut [u128; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_u128(&*(i as *const [u128; 17]), &mut *(o as *mut [u128; 64])) }),
    ("C25/mul_quaternion_u128", "u128", 5, "u128", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_u128(&*(i as *const [u128; 5]), &mut *(o as *mut [u128; 16])) }),
    ("C25/mul_complex_u128", "u128", 3, "u128", 8, "all", |i, o| unsafe { l_C25_mul_complex_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }, |i, o| unsafe { r_C25_mul_complex_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }),
    ("C25/add_complex_u128", "u128", 3, "u128", 8, "all", |i, o| unsafe { l_C25_add_complex_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }, |i, o| unsafe { r_C25_add_complex_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 8])) }),
    ("C25/sub_complex_re_u128", "u128", 3, "u128", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u128; 4])) }),
    ("C25/sub_complex_magnitude_u128", "u128", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_u128(&*(i as *const [u128; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_vector1_usize", "usize", 2, "usize", 4, "all", |i, o| unsafe { l_C25_mul_vector1_usize(&*(i as *const [usize; 2]), &mut *(o as *mut [usize; 4])) }, |i, o| unsafe { r_C25_mul_vector1_usize(&*(i as *const [usize; 2]), &mut *(o as *mut [usize; 4])) }),
    ("C25/mul_point1_usize", "usize", 2, "usize", 2, "all", |i, o| unsafe { l_C25_mul_point1_usize(&*(i as *const [usize; 2]), &mut *(o as *mut [usize; 2])) }, |i, o| unsafe { r_C25_mul_point1_usize(&*(i as *const [usize; 2]), &mut *(o as *mut [usize; 2])) }),
    ("C25/mul_matrix1x1_usize", "usize", 2, "usize", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_usize(&*(i as *const [usize; 2]), &mut *(o as *mut [usize; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_usize(&*(i as *const [usize; 2]), &mut *(o as *mut [usize; 4])) }),
    ("C25/mul_matrix1x2_usize", "usize", 3, "usize", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }),
    ("C25/mul_matrix1x3_usize", "usize", 4, "usize", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 12])) }),
    ("C25/mul_matrix1x4_usize", "usize", 5, "usize", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }),
    ("C25/mul_vector2_usize", "usize", 3, "usize", 8, "all", |i, o| unsafe { l_C25_mul_vector2_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }, |i, o| unsafe { r_C25_mul_vector2_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }),
    ("C25/mul_point2_usize", "usize", 3, "usize", 4, "all", |i, o| unsafe { l_C25_mul_point2_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 4])) }, |i, o| unsafe { r_C25_mul_point2_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 4])) }),
    ("C25/mul_matrix2x1_usize", "usize", 3, "usize", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }),
    ("C25/mul_matrix2x2_usize", "usize", 5, "usize", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }),
    ("C25/mul_matrix2x3_usize", "usize", 7, "usize", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_usize(&*(i as *const [usize; 7]), &mut *(o as *mut [usize; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_usize(&*(i as *const [usize; 7]), &mut *(o as *mut [usize; 24])) }),
    ("C25/mul_matrix2x4_usize", "usize", 9, "usize", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_usize(&*(i as *const [usize; 9]), &mut *(o as *mut [usize; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_usize(&*(i as *const [usize; 9]), &mut *(o as *mut [usize; 32])) }),
    ("C25/mul_vector3_usize", "usize", 4, "usize", 12, "all", |i, o| unsafe { l_C25_mul_vector3_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 12])) }, |i, o| unsafe { r_C25_mul_vector3_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 12])) }),
    ("C25/mul_point3_usize", "usize", 4, "usize", 6, "all", |i, o| unsafe { l_C25_mul_point3_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 6])) }, |i, o| unsafe { r_C25_mul_point3_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 6])) }),
    ("C25/mul_matrix3x1_usize", "usize", 4, "usize", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_usize(&*(i as *const [usize; 4]), &mut *(o as *mut [usize; 12])) }),
    ("C25/mul_matrix3x2_usize", "usize", 7, "usize", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_usize(&*(i as *const [usize; 7]), &mut *(o as *mut [usize; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_usize(&*(i as *const [usize; 7]), &mut *(o as *mut [usize; 24])) }),
    ("C25/mul_matrix3x3_usize", "usize", 10, "usize", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_usize(&*(i as *const [usize; 10]), &mut *(o as *mut [usize; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_usize(&*(i as *const [usize; 10]), &mut *(o as *mut [usize; 36])) }),
    ("C25/mul_matrix3x4_usize", "usize", 13, "usize", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_usize(&*(i as *const [usize; 13]), &mut *(o as *mut [usize; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_usize(&*(i as *const [usize; 13]), &mut *(o as *mut [usize; 48])) }),
    ("C25/mul_vector4_usize", "usize", 5, "usize", 16, "all", |i, o| unsafe { l_C25_mul_vector4_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }, |i, o| unsafe { r_C25_mul_vector4_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }),
    ("C25/mul_matrix4x1_usize", "usize", 5, "usize", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }),
    ("C25/mul_matrix4x2_usize", "usize", 9, "usize", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_usize(&*(i as *const [usize; 9]), &mut *(o as *mut [usize; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_usize(&*(i as *const [usize; 9]), &mut *(o as *mut [usize; 32])) }),
    ("C25/mul_matrix4x3_usize", "usize", 13, "usize", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_usize(&*(i as *const [usize; 13]), &mut *(o as *mut [usize; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_usize(&*(i as *const [usize; 13]), &mut *(o as *mut [usize; 48])) }),
    ("C25/mul_matrix4x4_usize", "usize", 17, "usize", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_usize(&*(i as *const [usize; 17]), &mut *(o as *mut [usize; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_usize(&*(i as *const [usize; 17]), &mut *(o as *mut [usize; 64])) }),
    ("C25/mul_quaternion_usize", "usize", 5, "usize", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_usize(&*(i as *const [usize; 5]), &mut *(o as *mut [usize; 16])) }),
    ("C25/mul_complex_usize", "usize", 3, "usize", 8, "all", |i, o| unsafe { l_C25_mul_complex_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }, |i, o| unsafe { r_C25_mul_complex_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }),
    ("C25/add_complex_usize", "usize", 3, "usize", 8, "all", |i, o| unsafe { l_C25_add_complex_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }, |i, o| unsafe { r_C25_add_complex_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 8])) }),
    ("C25/sub_complex_re_usize", "usize", 3, "usize", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [usize; 4])) }),
    ("C25/sub_complex_magnitude_usize", "usize", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_usize(&*(i as *const [usize; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/mul_vector1_i8", "i8", 2, "i8", 4, "all", |i, o| unsafe { l_C25_mul_vector1_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 4])) }, |i, o| unsafe { r_C25_mul_vector1_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 4])) }),
    ("C25/mul_point1_i8", "i8", 2, "i8", 2, "all", |i, o| unsafe { l_C25_mul_point1_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 2])) }, |i, o| unsafe { r_C25_mul_point1_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 2])) }),
    ("C25/mul_matrix1x1_i8", "i8", 2, "i8", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 4])) }),
    ("C25/mul_matrix1x2_i8", "i8", 3, "i8", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }),
    ("C25/mul_matrix1x3_i8", "i8", 4, "i8", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 12])) }),
    ("C25/mul_matrix1x4_i8", "i8", 5, "i8", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }),
    ("C25/mul_vector2_i8", "i8", 3, "i8", 8, "all", |i, o| unsafe { l_C25_mul_vector2_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }, |i, o| unsafe { r_C25_mul_vector2_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }),
    ("C25/mul_point2_i8", "i8", 3, "i8", 4, "all", |i, o| unsafe { l_C25_mul_point2_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 4])) }, |i, o| unsafe { r_C25_mul_point2_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 4])) }),
    ("C25/mul_matrix2x1_i8", "i8", 3, "i8", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }),
    ("C25/mul_matrix2x2_i8", "i8", 5, "i8", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }),
    ("C25/mul_matrix2x3_i8", "i8", 7, "i8", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_i8(&*(i as *const [i8; 7]), &mut *(o as *mut [i8; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_i8(&*(i as *const [i8; 7]), &mut *(o as *mut [i8; 24])) }),
    ("C25/mul_matrix2x4_i8", "i8", 9, "i8", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_i8(&*(i as *const [i8; 9]), &mut *(o as *mut [i8; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_i8(&*(i as *const [i8; 9]), &mut *(o as *mut [i8; 32])) }),
    ("C25/mul_vector3_i8", "i8", 4, "i8", 12, "all", |i, o| unsafe { l_C25_mul_vector3_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 12])) }, |i, o| unsafe { r_C25_mul_vector3_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 12])) }),
    ("C25/mul_point3_i8", "i8", 4, "i8", 6, "all", |i, o| unsafe { l_C25_mul_point3_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 6])) }, |i, o| unsafe { r_C25_mul_point3_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 6])) }),
    ("C25/mul_matrix3x1_i8", "i8", 4, "i8", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_i8(&*(i as *const [i8; 4]), &mut *(o as *mut [i8; 12])) }),
    ("C25/mul_matrix3x2_i8", "i8", 7, "i8", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_i8(&*(i as *const [i8; 7]), &mut *(o as *mut [i8; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_i8(&*(i as *const [i8; 7]), &mut *(o as *mut [i8; 24])) }),
    ("C25/mul_matrix3x3_i8", "i8", 10, "i8", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_i8(&*(i as *const [i8; 10]), &mut *(o as *mut [i8; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_i8(&*(i as *const [i8; 10]), &mut *(o as *mut [i8; 36])) }),
    ("C25/mul_matrix3x4_i8", "i8", 13, "i8", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_i8(&*(i as *const [i8; 13]), &mut *(o as *mut [i8; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_i8(&*(i as *const [i8; 13]), &mut *(o as *mut [i8; 48])) }),
    ("C25/mul_vector4_i8", "i8", 5, "i8", 16, "all", |i, o| unsafe { l_C25_mul_vector4_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }, |i, o| unsafe { r_C25_mul_vector4_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }),
    ("C25/mul_matrix4x1_i8", "i8", 5, "i8", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }),
    ("C25/mul_matrix4x2_i8", "i8", 9, "i8", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_i8(&*(i as *const [i8; 9]), &mut *(o as *mut [i8; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_i8(&*(i as *const [i8; 9]), &mut *(o as *mut [i8; 32])) }),
    ("C25/mul_matrix4x3_i8", "i8", 13, "i8", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_i8(&*(i as *const [i8; 13]), &mut *(o as *mut [i8; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_i8(&*(i as *const [i8; 13]), &mut *(o as *mut [i8; 48])) }),
    ("C25/mul_matrix4x4_i8", "i8", 17, "i8", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_i8(&*(i as *const [i8; 17]), &mut *(o as *mut [i8; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_i8(&*(i as *const [i8; 17]), &mut *(o as *mut [i8; 64])) }),
    ("C25/mul_quaternion_i8", "i8", 5, "i8", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_i8(&*(i as *const [i8; 5]), &mut *(o as *mut [i8; 16])) }),
    ("C25/mul_complex_i8", "i8", 3, "i8", 8, "all", |i, o| unsafe { l_C25_mul_complex_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }, |i, o| unsafe { r_C25_mul_complex_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }),
    ("C25/add_complex_i8", "i8", 3, "i8", 8, "all", |i, o| unsafe { l_C25_add_complex_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }, |i, o| unsafe { r_C25_add_complex_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }),
    ("C25/sub_complex_re_i8", "i8", 3, "i8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 4])) }),
    ("C25/sub_complex_magnitude_i8", "i8", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_i8", "i8", 3, "i8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 4])) }),
    ("C25/div_complex_i8", "i8", 3, "i8", 8, "uf", |i, o| unsafe { l_C25_div_complex_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }, |i, o| unsafe { r_C25_div_complex_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 8])) }),
    ("C25/mul_vector1_i16", "i16", 2, "i16", 4, "all", |i, o| unsafe { l_C25_mul_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 4])) }, |i, o| unsafe { r_C25_mul_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 4])) }),
    ("C25/mul_point1_i16", "i16", 2, "i16", 2, "all", |i, o| unsafe { l_C25_mul_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 2])) }, |i, o| unsafe { r_C25_mul_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 2])) }),
    ("C25/mul_matrix1x1_i16", "i16", 2, "i16", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 4])) }),
    ("C25/mul_matrix1x2_i16", "i16", 3, "i16", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }),
    ("C25/mul_matrix1x3_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C25/mul_matrix1x4_i16", "i16", 5, "i16", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }),
    ("C25/mul_vector2_i16", "i16", 3, "i16", 8, "all", |i, o| unsafe { l_C25_mul_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }, |i, o| unsafe { r_C25_mul_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }),
    ("C25/mul_point2_i16", "i16", 3, "i16", 4, "all", |i, o| unsafe { l_C25_mul_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 4])) }, |i, o| unsafe { r_C25_mul_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 4])) }),
    ("C25/mul_matrix2x1_i16", "i16", 3, "i16", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }),
    ("C25/mul_matrix2x2_i16", "i16", 5, "i16", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }),
    ("C25/mul_matrix2x3_i16", "i16", 7, "i16", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 24])) }),
    ("C25/mul_matrix2x4_i16", "i16", 9, "i16", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 32])) }),
    ("C25/mul_vector3_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C25_mul_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C25_mul_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C25/mul_point3_i16", "i16", 4, "i16", 6, "all", |i, o| unsafe { l_C25_mul_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C25_mul_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 6])) }),
    ("C25/mul_matrix3x1_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C25/mul_matrix3x2_i16", "i16", 7, "i16", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 24])) }),
    ("C25/mul_matrix3x3_i16", "i16", 10, "i16", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 36])) }),
    ("C25/mul_matrix3x4_i16", "i16", 13, "i16", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 48])) }),
    ("C25/mul_vector4_i16", "i16", 5, "i16", 16, "all", |i, o| unsafe { l_C25_mul_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }, |i, o| unsafe { r_C25_mul_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }),
    ("C25/mul_matrix4x1_i16", "i16", 5, "i16", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }),
    ("C25/mul_matrix4x2_i16", "i16", 9, "i16", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 32])) }),
    ("C25/mul_matrix4x3_i16", "i16", 13, "i16", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 48])) }),
    ("C25/mul_matrix4x4_i16", "i16", 17, "i16", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 64])) }),
    ("C25/mul_quaternion_i16", "i16", 5, "i16", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 16])) }),
    ("C25/mul_complex_i16", "i16", 3, "i16", 8, "all", |i, o| unsafe { l_C25_mul_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }, |i, o| unsafe { r_C25_mul_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }),
    ("C25/add_complex_i16", "i16", 3, "i16", 8, "all", |i, o| unsafe { l_C25_add_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }, |i, o| unsafe { r_C25_add_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }),
    ("C25/sub_complex_re_i16", "i16", 3, "i16", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 4])) }),
    ("C25/sub_complex_magnitude_i16", "i16", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_i16", "i16", 3, "i16", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 4])) }),
    ("C25/div_complex_i16", "i16", 3, "i16", 8, "uf", |i, o| unsafe { l_C25_div_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }, |i, o| unsafe { r_C25_div_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 8])) }),
    ("C25/mul_vector1_i32", "i32", 2, "i32", 4, "all", |i, o| unsafe { l_C25_mul_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C25_mul_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 4])) }),
    ("C25/mul_point1_i32", "i32", 2, "i32", 2, "all", |i, o| unsafe { l_C25_mul_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C25_mul_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C25/mul_matrix1x1_i32", "i32", 2, "i32", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 4])) }),
    ("C25/mul_matrix1x2_i32", "i32", 3, "i32", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }),
    ("C25/mul_matrix1x3_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C25/mul_matrix1x4_i32", "i32", 5, "i32", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }),
    ("C25/mul_vector2_i32", "i32", 3, "i32", 8, "all", |i, o| unsafe { l_C25_mul_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C25_mul_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }),
    ("C25/mul_point2_i32", "i32", 3, "i32", 4, "all", |i, o| unsafe { l_C25_mul_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C25_mul_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 4])) }),
    ("C25/mul_matrix2x1_i32", "i32", 3, "i32", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }),
    ("C25/mul_matrix2x2_i32", "i32", 5, "i32", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }),
    ("C25/mul_matrix2x3_i32", "i32", 7, "i32", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 24])) }),
    ("C25/mul_matrix2x4_i32", "i32", 9, "i32", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 32])) }),
    ("C25/mul_vector3_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C25_mul_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C25_mul_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C25/mul_point3_i32", "i32", 4, "i32", 6, "all", |i, o| unsafe { l_C25_mul_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C25_mul_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 6])) }),
    ("C25/mul_matrix3x1_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C25/mul_matrix3x2_i32", "i32", 7, "i32", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 24])) }),
    ("C25/mul_matrix3x3_i32", "i32", 10, "i32", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 36])) }),
    ("C25/mul_matrix3x4_i32", "i32", 13, "i32", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 48])) }),
    ("C25/mul_vector4_i32", "i32", 5, "i32", 16, "all", |i, o| unsafe { l_C25_mul_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C25_mul_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }),
    ("C25/mul_matrix4x1_i32", "i32", 5, "i32", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }),
    ("C25/mul_matrix4x2_i32", "i32", 9, "i32", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 32])) }),
    ("C25/mul_matrix4x3_i32", "i32", 13, "i32", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 48])) }),
    ("C25/mul_matrix4x4_i32", "i32", 17, "i32", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 64])) }),
    ("C25/mul_quaternion_i32", "i32", 5, "i32", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 16])) }),
    ("C25/mul_complex_i32", "i32", 3, "i32", 8, "all", |i, o| unsafe { l_C25_mul_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C25_mul_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }),
    ("C25/add_complex_i32", "i32", 3, "i32", 8, "all", |i, o| unsafe { l_C25_add_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C25_add_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }),
    ("C25/sub_complex_re_i32", "i32", 3, "i32", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 4])) }),
    ("C25/sub_complex_magnitude_i32", "i32", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_i32", "i32", 3, "i32", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 4])) }),
    ("C25/div_complex_i32", "i32", 3, "i32", 8, "uf", |i, o| unsafe { l_C25_div_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C25_div_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 8])) }),
    ("C25/mul_vector1_i64", "i64", 2, "i64", 4, "all", |i, o| unsafe { l_C25_mul_vector1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C25_mul_vector1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 4])) }),
    ("C25/mul_point1_i64", "i64", 2, "i64", 2, "all", |i, o| unsafe { l_C25_mul_point1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C25_mul_point1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C25/mul_matrix1x1_i64", "i64", 2, "i64", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 4])) }),
    ("C25/mul_matrix1x2_i64", "i64", 3, "i64", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }),
    ("C25/mul_matrix1x3_i64", "i64", 4, "i64", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }),
    ("C25/mul_matrix1x4_i64", "i64", 5, "i64", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }),
    ("C25/mul_vector2_i64", "i64", 3, "i64", 8, "all", |i, o| unsafe { l_C25_mul_vector2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C25_mul_vector2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }),
    ("C25/mul_point2_i64", "i64", 3, "i64", 4, "all", |i, o| unsafe { l_C25_mul_point2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C25_mul_point2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 4])) }),
    ("C25/mul_matrix2x1_i64", "i64", 3, "i64", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }),
    ("C25/mul_matrix2x2_i64", "i64", 5, "i64", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }),
    ("C25/mul_matrix2x3_i64", "i64", 7, "i64", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_i64(&*(i as *const [i64; 7]), &mut *(o as *mut [i64; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_i64(&*(i as *const [i64; 7]), &mut *(o as *mut [i64; 24])) }),
    ("C25/mul_matrix2x4_i64", "i64", 9, "i64", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 32])) }),
    ("C25/mul_vector3_i64", "i64", 4, "i64", 12, "all", |i, o| unsafe { l_C25_mul_vector3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }, |i, o| unsafe { r_C25_mul_vector3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }),
    ("C25/mul_point3_i64", "i64", 4, "i64", 6, "all", |i, o| unsafe { l_C25_mul_point3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 6])) }, |i, o| unsafe { r_C25_mul_point3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 6])) }),
    ("C25/mul_matrix3x1_i64", "i64", 4, "i64", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }),
    ("C25/mul_matrix3x2_i64", "i64", 7, "i64", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_i64(&*(i as *const [i64; 7]), &mut *(o as *mut [i64; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_i64(&*(i as *const [i64; 7]), &mut *(o as *mut [i64; 24])) }),
    ("C25/mul_matrix3x3_i64", "i64", 10, "i64", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 36])) }),
    ("C25/mul_matrix3x4_i64", "i64", 13, "i64", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_i64(&*(i as *const [i64; 13]), &mut *(o as *mut [i64; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_i64(&*(i as *const [i64; 13]), &mut *(o as *mut [i64; 48])) }),
    ("C25/mul_vector4_i64", "i64", 5, "i64", 16, "all", |i, o| unsafe { l_C25_mul_vector4_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C25_mul_vector4_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }),
    ("C25/mul_matrix4x1_i64", "i64", 5, "i64", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }),
    ("C25/mul_matrix4x2_i64", "i64", 9, "i64", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 32])) }),
    ("C25/mul_matrix4x3_i64", "i64", 13, "i64", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_i64(&*(i as *const [i64; 13]), &mut *(o as *mut [i64; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_i64(&*(i as *const [i64; 13]), &mut *(o as *mut [i64; 48])) }),
    ("C25/mul_matrix4x4_i64", "i64", 17, "i64", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_i64(&*(i as *const [i64; 17]), &mut *(o as *mut [i64; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_i64(&*(i as *const [i64; 17]), &mut *(o as *mut [i64; 64])) }),
    ("C25/mul_quaternion_i64", "i64", 5, "i64", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 16])) }),
    ("C25/mul_complex_i64", "i64", 3, "i64", 8, "all", |i, o| unsafe { l_C25_mul_complex_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C25_mul_complex_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }),
    ("C25/add_complex_i64", "i64", 3, "i64", 8, "all", |i, o| unsafe { l_C25_add_complex_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C25_add_complex_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }),
    ("C25/sub_complex_re_i64", "i64", 3, "i64", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 4])) }),
    ("C25/sub_complex_magnitude_i64", "i64", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_i64", "i64", 3, "i64", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 4])) }),
    ("C25/div_complex_i64", "i64", 3, "i64", 8, "uf", |i, o| unsafe { l_C25_div_complex_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C25_div_complex_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 8])) }),
    ("C25/mul_vector1_i128", "i128", 2, "i128", 4, "all", |i, o| unsafe { l_C25_mul_vector1_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 4])) }, |i, o| unsafe { r_C25_mul_vector1_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 4])) }),
    ("C25/mul_point1_i128", "i128", 2, "i128", 2, "all", |i, o| unsafe { l_C25_mul_point1_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 2])) }, |i, o| unsafe { r_C25_mul_point1_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 2])) }),
    ("C25/mul_matrix1x1_i128", "i128", 2, "i128", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 4])) }),
    ("C25/mul_matrix1x2_i128", "i128", 3, "i128", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }),
    ("C25/mul_matrix1x3_i128", "i128", 4, "i128", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 12])) }),
    ("C25/mul_matrix1x4_i128", "i128", 5, "i128", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }),
    ("C25/mul_vector2_i128", "i128", 3, "i128", 8, "all", |i, o| unsafe { l_C25_mul_vector2_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }, |i, o| unsafe { r_C25_mul_vector2_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }),
    ("C25/mul_point2_i128", "i128", 3, "i128", 4, "all", |i, o| unsafe { l_C25_mul_point2_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 4])) }, |i, o| unsafe { r_C25_mul_point2_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 4])) }),
    ("C25/mul_matrix2x1_i128", "i128", 3, "i128", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }),
    ("C25/mul_matrix2x2_i128", "i128", 5, "i128", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }),
    ("C25/mul_matrix2x3_i128", "i128", 7, "i128", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_i128(&*(i as *const [i128; 7]), &mut *(o as *mut [i128; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_i128(&*(i as *const [i128; 7]), &mut *(o as *mut [i128; 24])) }),
    ("C25/mul_matrix2x4_i128", "i128", 9, "i128", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_i128(&*(i as *const [i128; 9]), &mut *(o as *mut [i128; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_i128(&*(i as *const [i128; 9]), &mut *(o as *mut [i128; 32])) }),
    ("C25/mul_vector3_i128", "i128", 4, "i128", 12, "all", |i, o| unsafe { l_C25_mul_vector3_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 12])) }, |i, o| unsafe { r_C25_mul_vector3_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 12])) }),
    ("C25/mul_point3_i128", "i128", 4, "i128", 6, "all", |i, o| unsafe { l_C25_mul_point3_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 6])) }, |i, o| unsafe { r_C25_mul_point3_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 6])) }),
    ("C25/mul_matrix3x1_i128", "i128", 4, "i128", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_i128(&*(i as *const [i128; 4]), &mut *(o as *mut [i128; 12])) }),
    ("C25/mul_matrix3x2_i128", "i128", 7, "i128", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_i128(&*(i as *const [i128; 7]), &mut *(o as *mut [i128; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_i128(&*(i as *const [i128; 7]), &mut *(o as *mut [i128; 24])) }),
    ("C25/mul_matrix3x3_i128", "i128", 10, "i128", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_i128(&*(i as *const [i128; 10]), &mut *(o as *mut [i128; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_i128(&*(i as *const [i128; 10]), &mut *(o as *mut [i128; 36])) }),
    ("C25/mul_matrix3x4_i128", "i128", 13, "i128", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_i128(&*(i as *const [i128; 13]), &mut *(o as *mut [i128; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_i128(&*(i as *const [i128; 13]), &mut *(o as *mut [i128; 48])) }),
    ("C25/mul_vector4_i128", "i128", 5, "i128", 16, "all", |i, o| unsafe { l_C25_mul_vector4_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }, |i, o| unsafe { r_C25_mul_vector4_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }),
    ("C25/mul_matrix4x1_i128", "i128", 5, "i128", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }),
    ("C25/mul_matrix4x2_i128", "i128", 9, "i128", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_i128(&*(i as *const [i128; 9]), &mut *(o as *mut [i128; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_i128(&*(i as *const [i128; 9]), &mut *(o as *mut [i128; 32])) }),
    ("C25/mul_matrix4x3_i128", "i128", 13, "i128", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_i128(&*(i as *const [i128; 13]), &mut *(o as *mut [i128; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_i128(&*(i as *const [i128; 13]), &mut *(o as *mut [i128; 48])) }),
    ("C25/mul_matrix4x4_i128", "i128", 17, "i128", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_i128(&*(i as *const [i128; 17]), &mut *(o as *mut [i128; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_i128(&*(i as *const [i128; 17]), &mut *(o as *mut [i128; 64])) }),
    ("C25/mul_quaternion_i128", "i128", 5, "i128", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_i128(&*(i as *const [i128; 5]), &mut *(o as *mut [i128; 16])) }),
    ("C25/mul_complex_i128", "i128", 3, "i128", 8, "all", |i, o| unsafe { l_C25_mul_complex_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }, |i, o| unsafe { r_C25_mul_complex_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }),
    ("C25/add_complex_i128", "i128", 3, "i128", 8, "all", |i, o| unsafe { l_C25_add_complex_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }, |i, o| unsafe { r_C25_add_complex_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }),
    ("C25/sub_complex_re_i128", "i128", 3, "i128", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 4])) }),
    ("C25/sub_complex_magnitude_i128", "i128", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_i128", "i128", 3, "i128", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 4])) }),
    ("C25/div_complex_i128", "i128", 3, "i128", 8, "uf", |i, o| unsafe { l_C25_div_complex_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }, |i, o| unsafe { r_C25_div_complex_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 8])) }),
    ("C25/mul_vector1_isize", "isize", 2, "isize", 4, "all", |i, o| unsafe { l_C25_mul_vector1_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 4])) }, |i, o| unsafe { r_C25_mul_vector1_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 4])) }),
    ("C25/mul_point1_isize", "isize", 2, "isize", 2, "all", |i, o| unsafe { l_C25_mul_point1_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 2])) }, |i, o| unsafe { r_C25_mul_point1_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 2])) }),
    ("C25/mul_matrix1x1_isize", "isize", 2, "isize", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 4])) }),
    ("C25/mul_matrix1x2_isize", "isize", 3, "isize", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }),
    ("C25/mul_matrix1x3_isize", "isize", 4, "isize", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 12])) }),
    ("C25/mul_matrix1x4_isize", "isize", 5, "isize", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }),
    ("C25/mul_vector2_isize", "isize", 3, "isize", 8, "all", |i, o| unsafe { l_C25_mul_vector2_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }, |i, o| unsafe { r_C25_mul_vector2_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }),
    ("C25/mul_point2_isize", "isize", 3, "isize", 4, "all", |i, o| unsafe { l_C25_mul_point2_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 4])) }, |i, o| unsafe { r_C25_mul_point2_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 4])) }),
    ("C25/mul_matrix2x1_isize", "isize", 3, "isize", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }),
    ("C25/mul_matrix2x2_isize", "isize", 5, "isize", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }),
    ("C25/mul_matrix2x3_isize", "isize", 7, "isize", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_isize(&*(i as *const [isize; 7]), &mut *(o as *mut [isize; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_isize(&*(i as *const [isize; 7]), &mut *(o as *mut [isize; 24])) }),
    ("C25/mul_matrix2x4_isize", "isize", 9, "isize", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_isize(&*(i as *const [isize; 9]), &mut *(o as *mut [isize; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_isize(&*(i as *const [isize; 9]), &mut *(o as *mut [isize; 32])) }),
    ("C25/mul_vector3_isize", "isize", 4, "isize", 12, "all", |i, o| unsafe { l_C25_mul_vector3_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 12])) }, |i, o| unsafe { r_C25_mul_vector3_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 12])) }),
    ("C25/mul_point3_isize", "isize", 4, "isize", 6, "all", |i, o| unsafe { l_C25_mul_point3_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 6])) }, |i, o| unsafe { r_C25_mul_point3_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 6])) }),
    ("C25/mul_matrix3x1_isize", "isize", 4, "isize", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_isize(&*(i as *const [isize; 4]), &mut *(o as *mut [isize; 12])) }),
    ("C25/mul_matrix3x2_isize", "isize", 7, "isize", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_isize(&*(i as *const [isize; 7]), &mut *(o as *mut [isize; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_isize(&*(i as *const [isize; 7]), &mut *(o as *mut [isize; 24])) }),
    ("C25/mul_matrix3x3_isize", "isize", 10, "isize", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_isize(&*(i as *const [isize; 10]), &mut *(o as *mut [isize; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_isize(&*(i as *const [isize; 10]), &mut *(o as *mut [isize; 36])) }),
    ("C25/mul_matrix3x4_isize", "isize", 13, "isize", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_isize(&*(i as *const [isize; 13]), &mut *(o as *mut [isize; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_isize(&*(i as *const [isize; 13]), &mut *(o as *mut [isize; 48])) }),
    ("C25/mul_vector4_isize", "isize", 5, "isize", 16, "all", |i, o| unsafe { l_C25_mul_vector4_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }, |i, o| unsafe { r_C25_mul_vector4_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }),
    ("C25/mul_matrix4x1_isize", "isize", 5, "isize", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }),
    ("C25/mul_matrix4x2_isize", "isize", 9, "isize", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_isize(&*(i as *const [isize; 9]), &mut *(o as *mut [isize; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_isize(&*(i as *const [isize; 9]), &mut *(o as *mut [isize; 32])) }),
    ("C25/mul_matrix4x3_isize", "isize", 13, "isize", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_isize(&*(i as *const [isize; 13]), &mut *(o as *mut [isize; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_isize(&*(i as *const [isize; 13]), &mut *(o as *mut [isize; 48])) }),
    ("C25/mul_matrix4x4_isize", "isize", 17, "isize", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_isize(&*(i as *const [isize; 17]), &mut *(o as *mut [isize; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_isize(&*(i as *const [isize; 17]), &mut *(o as *mut [isize; 64])) }),
    ("C25/mul_quaternion_isize", "isize", 5, "isize", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_isize(&*(i as *const [isize; 5]), &mut *(o as *mut [isize; 16])) }),
    ("C25/mul_complex_isize", "isize", 3, "isize", 8, "all", |i, o| unsafe { l_C25_mul_complex_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }, |i, o| unsafe { r_C25_mul_complex_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }),
    ("C25/add_complex_isize", "isize", 3, "isize", 8, "all", |i, o| unsafe { l_C25_add_complex_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }, |i, o| unsafe { r_C25_add_complex_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }),
    ("C25/sub_complex_re_isize", "isize", 3, "isize", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 4])) }),
    ("C25/sub_complex_magnitude_isize", "isize", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_isize", "isize", 3, "isize", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 4])) }),
    ("C25/div_complex_isize", "isize", 3, "isize", 8, "uf", |i, o| unsafe { l_C25_div_complex_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }, |i, o| unsafe { r_C25_div_complex_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 8])) }),
    ("C25/mul_vector1_f32", "f32", 2, "f32", 4, "all", |i, o| unsafe { l_C25_mul_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C25_mul_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C25/mul_point1_f32", "f32", 2, "f32", 2, "all", |i, o| unsafe { l_C25_mul_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C25_mul_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C25/mul_matrix1x1_f32", "f32", 2, "f32", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C25/mul_matrix1x2_f32", "f32", 3, "f32", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }),
    ("C25/mul_matrix1x3_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C25/mul_matrix1x4_f32", "f32", 5, "f32", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }),
    ("C25/mul_vector2_f32", "f32", 3, "f32", 8, "all", |i, o| unsafe { l_C25_mul_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C25_mul_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }),
    ("C25/mul_point2_f32", "f32", 3, "f32", 4, "all", |i, o| unsafe { l_C25_mul_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C25_mul_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 4])) }),
    ("C25/mul_matrix2x1_f32", "f32", 3, "f32", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }),
    ("C25/mul_matrix2x2_f32", "f32", 5, "f32", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }),
    ("C25/mul_matrix2x3_f32", "f32", 7, "f32", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 24])) }),
    ("C25/mul_matrix2x4_f32", "f32", 9, "f32", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 32])) }),
    ("C25/mul_vector3_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C25_mul_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C25_mul_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C25/mul_point3_f32", "f32", 4, "f32", 6, "all", |i, o| unsafe { l_C25_mul_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C25_mul_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 6])) }),
    ("C25/mul_matrix3x1_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C25/mul_matrix3x2_f32", "f32", 7, "f32", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 24])) }),
    ("C25/mul_matrix3x3_f32", "f32", 10, "f32", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 36])) }),
    ("C25/mul_matrix3x4_f32", "f32", 13, "f32", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 48])) }),
    ("C25/mul_vector4_f32", "f32", 5, "f32", 16, "all", |i, o| unsafe { l_C25_mul_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C25_mul_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }),
    ("C25/mul_matrix4x1_f32", "f32", 5, "f32", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }),
    ("C25/mul_matrix4x2_f32", "f32", 9, "f32", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 32])) }),
    ("C25/mul_matrix4x3_f32", "f32", 13, "f32", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 48])) }),
    ("C25/mul_matrix4x4_f32", "f32", 17, "f32", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 64])) }),
    ("C25/mul_quaternion_f32", "f32", 5, "f32", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 16])) }),
    ("C25/mul_complex_f32", "f32", 3, "f32", 8, "all", |i, o| unsafe { l_C25_mul_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C25_mul_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }),
    ("C25/add_complex_f32", "f32", 3, "f32", 8, "all", |i, o| unsafe { l_C25_add_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C25_add_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }),
    ("C25/sub_complex_re_f32", "f32", 3, "f32", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 4])) }),
    ("C25/sub_complex_magnitude_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_f32", "f32", 3, "f32", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 4])) }),
    ("C25/div_complex_f32", "f32", 3, "f32", 8, "uf", |i, o| unsafe { l_C25_div_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C25_div_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 8])) }),
    ("C25/mul_vector1_f64", "f64", 2, "f64", 4, "all", |i, o| unsafe { l_C25_mul_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C25_mul_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C25/mul_point1_f64", "f64", 2, "f64", 2, "all", |i, o| unsafe { l_C25_mul_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C25_mul_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C25/mul_matrix1x1_f64", "f64", 2, "f64", 4, "all", |i, o| unsafe { l_C25_mul_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C25_mul_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C25/mul_matrix1x2_f64", "f64", 3, "f64", 8, "all", |i, o| unsafe { l_C25_mul_matrix1x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C25_mul_matrix1x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }),
    ("C25/mul_matrix1x3_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C25_mul_matrix1x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C25_mul_matrix1x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C25/mul_matrix1x4_f64", "f64", 5, "f64", 16, "all", |i, o| unsafe { l_C25_mul_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C25_mul_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }),
    ("C25/mul_vector2_f64", "f64", 3, "f64", 8, "all", |i, o| unsafe { l_C25_mul_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C25_mul_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }),
    ("C25/mul_point2_f64", "f64", 3, "f64", 4, "all", |i, o| unsafe { l_C25_mul_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C25_mul_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 4])) }),
    ("C25/mul_matrix2x1_f64", "f64", 3, "f64", 8, "all", |i, o| unsafe { l_C25_mul_matrix2x1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C25_mul_matrix2x1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }),
    ("C25/mul_matrix2x2_f64", "f64", 5, "f64", 16, "all", |i, o| unsafe { l_C25_mul_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C25_mul_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }),
    ("C25/mul_matrix2x3_f64", "f64", 7, "f64", 24, "all", |i, o| unsafe { l_C25_mul_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C25_mul_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 24])) }),
    ("C25/mul_matrix2x4_f64", "f64", 9, "f64", 32, "all", |i, o| unsafe { l_C25_mul_matrix2x4_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 32])) }, |i, o| unsafe { r_C25_mul_matrix2x4_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 32])) }),
    ("C25/mul_vector3_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C25_mul_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C25_mul_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C25/mul_point3_f64", "f64", 4, "f64", 6, "all", |i, o| unsafe { l_C25_mul_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C25_mul_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 6])) }),
    ("C25/mul_matrix3x1_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C25_mul_matrix3x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C25_mul_matrix3x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C25/mul_matrix3x2_f64", "f64", 7, "f64", 24, "all", |i, o| unsafe { l_C25_mul_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C25_mul_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 24])) }),
    ("C25/mul_matrix3x3_f64", "f64", 10, "f64", 36, "all", |i, o| unsafe { l_C25_mul_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C25_mul_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 36])) }),
    ("C25/mul_matrix3x4_f64", "f64", 13, "f64", 48, "all", |i, o| unsafe { l_C25_mul_matrix3x4_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C25_mul_matrix3x4_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 48])) }),
    ("C25/mul_vector4_f64", "f64", 5, "f64", 16, "all", |i, o| unsafe { l_C25_mul_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C25_mul_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }),
    ("C25/mul_matrix4x1_f64", "f64", 5, "f64", 16, "all", |i, o| unsafe { l_C25_mul_matrix4x1_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C25_mul_matrix4x1_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }),
    ("C25/mul_matrix4x2_f64", "f64", 9, "f64", 32, "all", |i, o| unsafe { l_C25_mul_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 32])) }, |i, o| unsafe { r_C25_mul_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 32])) }),
    ("C25/mul_matrix4x3_f64", "f64", 13, "f64", 48, "all", |i, o| unsafe { l_C25_mul_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C25_mul_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 48])) }),
    ("C25/mul_matrix4x4_f64", "f64", 17, "f64", 64, "all", |i, o| unsafe { l_C25_mul_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 64])) }, |i, o| unsafe { r_C25_mul_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 64])) }),
    ("C25/mul_quaternion_f64", "f64", 5, "f64", 16, "all", |i, o| unsafe { l_C25_mul_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C25_mul_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 16])) }),
    ("C25/mul_complex_f64", "f64", 3, "f64", 8, "all", |i, o| unsafe { l_C25_mul_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C25_mul_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }),
    ("C25/add_complex_f64", "f64", 3, "f64", 8, "all", |i, o| unsafe { l_C25_add_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C25_add_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }),
    ("C25/sub_complex_re_f64", "f64", 3, "f64", 4, "uf", |i, o| unsafe { l_C25_sub_complex_re_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C25_sub_complex_re_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 4])) }),
    ("C25/sub_complex_magnitude_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C25_sub_complex_magnitude_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C25_sub_complex_magnitude_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C25/sub_complex_im_f64", "f64", 3, "f64", 4, "uf", |i, o| unsafe { l_C25_sub_complex_im_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C25_sub_complex_im_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 4])) }),
    ("C25/div_complex_f64", "f64", 3, "f64", 8, "uf", |i, o| unsafe { l_C25_div_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C25_div_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 8])) }),
    ("C24/floor_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_floor_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_floor_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/ceil_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_ceil_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_ceil_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/round_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_round_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_round_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/trunc_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_trunc_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_trunc_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/sin_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_sin_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_sin_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/cos_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_cos_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_cos_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/tan_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_tan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_tan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/asin_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_asin_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_asin_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/acos_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_acos_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_acos_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/atan_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_atan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_atan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/sinh_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_sinh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_sinh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/cosh_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_cosh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_cosh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/tanh_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_tanh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_tanh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/asinh_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_asinh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_asinh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/acosh_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_acosh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_acosh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/atanh_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_atanh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_atanh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/log2_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_log2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_log2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/log10_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_log10_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_log10_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/sqrt_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_sqrt_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_sqrt_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/cbrt_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_cbrt_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_cbrt_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/exp_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_exp_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_exp_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/exp2_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_exp2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_exp2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/ln_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_ln_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_ln_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/ln_1p_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_ln_1p_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_ln_1p_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/exp_m1_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_exp_m1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_exp_m1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/fract_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_fract_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_fract_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/recip_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_recip_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_recip_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/sin_cos_f32", "f32", 1, "f32", 2, "uf", |i, o| unsafe { l_C24_sin_cos_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C24_sin_cos_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C24/sinh_cosh_f32", "f32", 1, "f32", 2, "uf", |i, o| unsafe { l_C24_sinh_cosh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C24_sinh_cosh_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C24/hypot_f32", "f32", 2, "f32", 1, "uf", |i, o| unsafe { l_C24_hypot_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_hypot_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C24/atan2_f32", "f32", 2, "f32", 1, "uf", |i, o| unsafe { l_C24_atan2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_atan2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powf_f32", "f32", 2, "f32", 1, "uf", |i, o| unsafe { l_C24_powf_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powf_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C24/log_f32", "f32", 2, "f32", 1, "uf", |i, o| unsafe { l_C24_log_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_log_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C24/mul_add_f32", "f32", 3, "f32", 1, "uf", |i, o| unsafe { l_C24_mul_add_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_mul_add_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_0_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_0_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_0_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_1_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m1_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_2_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m2_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m2_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_3_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_3_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_3_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m3_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m3_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m3_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_4_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_4_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_4_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m4_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m4_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m4_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_5_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_5_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_5_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m5_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m5_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m5_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_6_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_6_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_6_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m6_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m6_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m6_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_7_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_7_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_7_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m7_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m7_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m7_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_8_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_8_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_8_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m8_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m8_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m8_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_9_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_9_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_9_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m9_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m9_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m9_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_10_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_10_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_10_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m10_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m10_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m10_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_11_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_11_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_11_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m11_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m11_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m11_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_12_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_12_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_12_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m12_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m12_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m12_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_13_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_13_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_13_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m13_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m13_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m13_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_14_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_14_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_14_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m14_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m14_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m14_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_15_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_15_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_15_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m15_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m15_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m15_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_16_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_16_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_16_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m16_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m16_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m16_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_17_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_17_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_17_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m17_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m17_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m17_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_18_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_18_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_18_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m18_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m18_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m18_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_19_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_19_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_19_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m19_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m19_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m19_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_20_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_20_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_20_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m20_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m20_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m20_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_21_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_21_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_21_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m21_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m21_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m21_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_22_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_22_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_22_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m22_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m22_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m22_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_23_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_23_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_23_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m23_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m23_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m23_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_24_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_24_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_24_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m24_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m24_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m24_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_31_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_31_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_31_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m31_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m31_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m31_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_32_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_32_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_32_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m32_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m32_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m32_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_33_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_33_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_33_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m33_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m33_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m33_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_63_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_63_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_63_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m63_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m63_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m63_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_64_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_64_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_64_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m64_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m64_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m64_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_100_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_100_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_100_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/powi_m100_f32", "f32", 1, "f32", 1, "pow", |i, o| unsafe { l_C24_powi_m100_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_powi_m100_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/is_finite_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_finite_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_finite_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_infinite_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_infinite_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_infinite_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_nan_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_nan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_nan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_normal_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_normal_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_normal_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_subnormal_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_subnormal_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_subnormal_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_sign_positive_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_sign_positive_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_sign_positive_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_sign_negative_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_sign_negative_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_sign_negative_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/abs_f32", "f32", 1, "u32", 1, "uf", |i, o| unsafe { l_C24_abs_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 1])) }, |i, o| unsafe { r_C24_abs_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 1])) }),
    ("C24/copysign_f32", "f32", 2, "u32", 1, "uf", |i, o| unsafe { l_C24_copysign_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u32; 1])) }, |i, o| unsafe { r_C24_copysign_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u32; 1])) }),
    ("C24/signum_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C24_signum_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_signum_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C24/max_f32", "f32", 2, "f32", 1, "sel", |i, o| unsafe { l_C24_max_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_max_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C24/min_f32", "f32", 2, "f32", 1, "sel", |i, o| unsafe { l_C24_min_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_min_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C24/clamp_f32", "f32", 3, "f32", 1, "sel", |i, o| unsafe { l_C24_clamp_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C24_clamp_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 1])) }),
    ("C24/constants_f32", "f32", 1, "f32", 17, "uf", |i, o| unsafe { l_C24_constants_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 17])) }, |i, o| unsafe { r_C24_constants_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 17])) }),
    ("C24/limits_f32", "f32", 1, "u32", 8, "uf", |i, o| unsafe { l_C24_limits_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 8])) }, |i, o| unsafe { r_C24_limits_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 8])) }),
    ("C24/nan_f32", "f32", 1, "u8", 1, "sel", |i, o| unsafe { l_C24_nan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_nan_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/floor_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_floor_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_floor_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/ceil_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_ceil_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_ceil_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/round_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_round_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_round_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/trunc_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_trunc_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_trunc_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/sin_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_sin_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_sin_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/cos_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_cos_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_cos_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/tan_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_tan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_tan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/asin_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_asin_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_asin_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/acos_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_acos_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_acos_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/atan_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_atan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_atan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/sinh_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_sinh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_sinh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/cosh_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_cosh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_cosh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/tanh_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_tanh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_tanh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/asinh_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_asinh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_asinh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/acosh_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_acosh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_acosh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/atanh_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_atanh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_atanh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/log2_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_log2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_log2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/log10_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_log10_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_log10_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/sqrt_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_sqrt_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_sqrt_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/cbrt_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_cbrt_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_cbrt_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/exp_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_exp_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_exp_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/exp2_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_exp2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_exp2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/ln_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_ln_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_ln_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/ln_1p_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_ln_1p_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_ln_1p_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/exp_m1_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_exp_m1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_exp_m1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/fract_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_fract_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_fract_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/recip_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_recip_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_recip_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/sin_cos_f64", "f64", 1, "f64", 2, "uf", |i, o| unsafe { l_C24_sin_cos_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C24_sin_cos_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
    ("C24/sinh_cosh_f64", "f64", 1, "f64", 2, "uf", |i, o| unsafe { l_C24_sinh_cosh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C24_sinh_cosh_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
    ("C24/hypot_f64", "f64", 2, "f64", 1, "uf", |i, o| unsafe { l_C24_hypot_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_hypot_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C24/atan2_f64", "f64", 2, "f64", 1, "uf", |i, o| unsafe { l_C24_atan2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_atan2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powf_f64", "f64", 2, "f64", 1, "uf", |i, o| unsafe { l_C24_powf_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powf_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C24/log_f64", "f64", 2, "f64", 1, "uf", |i, o| unsafe { l_C24_log_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_log_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C24/mul_add_f64", "f64", 3, "f64", 1, "uf", |i, o| unsafe { l_C24_mul_add_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_mul_add_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_0_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_0_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_0_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_1_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m1_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_2_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m2_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m2_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_3_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_3_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_3_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m3_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m3_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m3_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_4_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_4_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_4_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m4_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m4_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m4_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_5_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_5_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_5_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m5_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m5_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m5_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_6_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_6_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_6_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m6_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m6_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m6_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_7_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_7_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_7_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m7_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m7_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m7_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_8_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_8_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_8_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m8_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m8_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m8_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_9_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_9_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_9_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m9_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m9_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m9_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_10_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_10_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_10_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m10_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m10_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m10_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_11_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_11_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_11_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m11_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m11_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m11_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_12_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_12_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_12_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m12_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m12_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m12_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_13_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_13_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_13_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m13_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m13_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m13_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_14_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_14_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_14_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m14_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m14_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m14_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_15_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_15_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_15_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m15_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m15_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m15_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_16_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_16_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_16_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m16_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m16_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m16_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_17_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_17_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_17_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m17_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m17_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m17_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_18_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_18_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_18_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m18_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m18_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m18_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_19_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_19_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_19_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m19_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m19_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m19_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_20_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_20_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_20_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m20_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m20_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m20_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_21_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_21_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_21_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m21_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m21_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m21_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_22_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_22_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_22_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m22_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m22_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m22_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_23_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_23_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_23_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m23_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m23_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m23_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_24_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_24_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_24_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m24_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m24_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m24_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_31_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_31_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_31_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m31_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m31_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m31_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_32_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_32_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_32_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m32_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m32_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m32_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_33_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_33_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_33_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m33_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m33_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m33_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_63_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_63_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_63_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m63_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m63_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m63_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_64_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_64_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_64_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m64_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m64_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m64_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_100_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_100_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_100_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/powi_m100_f64", "f64", 1, "f64", 1, "pow", |i, o| unsafe { l_C24_powi_m100_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_powi_m100_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/is_finite_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_finite_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_finite_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_infinite_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_infinite_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_infinite_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_nan_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_nan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_nan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_normal_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_normal_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_normal_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_subnormal_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_subnormal_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_subnormal_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_sign_positive_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_sign_positive_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_sign_positive_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/is_sign_negative_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C24_is_sign_negative_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_is_sign_negative_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/abs_f64", "f64", 1, "u64", 1, "uf", |i, o| unsafe { l_C24_abs_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 1])) }, |i, o| unsafe { r_C24_abs_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 1])) }),
    ("C24/copysign_f64", "f64", 2, "u64", 1, "uf", |i, o| unsafe { l_C24_copysign_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u64; 1])) }, |i, o| unsafe { r_C24_copysign_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u64; 1])) }),
    ("C24/signum_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C24_signum_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_signum_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C24/max_f64", "f64", 2, "f64", 1, "sel", |i, o| unsafe { l_C24_max_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_max_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C24/min_f64", "f64", 2, "f64", 1, "sel", |i, o| unsafe { l_C24_min_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_min_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C24/clamp_f64", "f64", 3, "f64", 1, "sel", |i, o| unsafe { l_C24_clamp_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C24_clamp_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 1])) }),
    ("C24/constants_f64", "f64", 1, "f64", 17, "uf", |i, o| unsafe { l_C24_constants_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 17])) }, |i, o| unsafe { r_C24_constants_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 17])) }),
    ("C24/limits_f64", "f64", 1, "u64", 8, "uf", |i, o| unsafe { l_C24_limits_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 8])) }, |i, o| unsafe { r_C24_limits_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 8])) }),
    ("C24/nan_f64", "f64", 1, "u8", 1, "sel", |i, o| unsafe { l_C24_nan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C24_nan_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C24/signs_i8", "i8", 1, "u8", 2, "uf", |i, o| unsafe { l_C24_signs_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C24_signs_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C24/abs_i8", "i8", 1, "i8", 1, "uf", |i, o| unsafe { l_C24_abs_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 1])) }, |i, o| unsafe { r_C24_abs_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 1])) }),
    ("C24/signum_i8", "i8", 1, "i8", 1, "uf", |i, o| unsafe { l_C24_signum_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 1])) }, |i, o| unsafe { r_C24_signum_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 1])) }),
    ("C24/copysign_i8", "i8", 2, "i8", 1, "uf", |i, o| unsafe { l_C24_copysign_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 1])) }, |i, o| unsafe { r_C24_copysign_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 1])) }),
    ("C24/max_i8", "i8", 2, "i8", 1, "uf", |i, o| unsafe { l_C24_max_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 1])) }, |i, o| unsafe { r_C24_max_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 1])) }),
    ("C24/min_i8", "i8", 2, "i8", 1, "uf", |i, o| unsafe { l_C24_min_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 1])) }, |i, o| unsafe { r_C24_min_i8(&*(i as *const [i8; 2]), &mut *(o as *mut [i8; 1])) }),
    ("C24/clamp_i8", "i8", 3, "i8", 1, "uf", |i, o| unsafe { l_C24_clamp_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 1])) }, |i, o| unsafe { r_C24_clamp_i8(&*(i as *const [i8; 3]), &mut *(o as *mut [i8; 1])) }),
    ("C24/bounds_i8", "i8", 1, "i8", 2, "uf", |i, o| unsafe { l_C24_bounds_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 2])) }, |i, o| unsafe { r_C24_bounds_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 2])) }),
    ("C24/signs_i16", "i16", 1, "u8", 2, "uf", |i, o| unsafe { l_C24_signs_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C24_signs_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C24/abs_i16", "i16", 1, "i16", 1, "uf", |i, o| unsafe { l_C24_abs_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 1])) }, |i, o| unsafe { r_C24_abs_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 1])) }),
    ("C24/signum_i16", "i16", 1, "i16", 1, "uf", |i, o| unsafe { l_C24_signum_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 1])) }, |i, o| unsafe { r_C24_signum_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 1])) }),
    ("C24/copysign_i16", "i16", 2, "i16", 1, "uf", |i, o| unsafe { l_C24_copysign_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 1])) }, |i, o| unsafe { r_C24_copysign_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 1])) }),
    ("C24/max_i16", "i16", 2, "i16", 1, "uf", |i, o| unsafe { l_C24_max_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 1])) }, |i, o| unsafe { r_C24_max_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 1])) }),
    ("C24/min_i16", "i16", 2, "i16", 1, "uf", |i, o| unsafe { l_C24_min_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 1])) }, |i, o| unsafe { r_C24_min_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 1])) }),
    ("C24/clamp_i16", "i16", 3, "i16", 1, "uf", |i, o| unsafe { l_C24_clamp_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 1])) }, |i, o| unsafe { r_C24_clamp_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 1])) }),
    ("C24/bounds_i16", "i16", 1, "i16", 2, "uf", |i, o| unsafe { l_C24_bounds_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 2])) }, |i, o| unsafe { r_C24_bounds_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 2])) }),
    ("C24/signs_i32", "i32", 1, "u8", 2, "uf", |i, o| unsafe { l_C24_signs_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C24_signs_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C24/abs_i32", "i32", 1, "i32", 1, "uf", |i, o| unsafe { l_C24_abs_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 1])) }, |i, o| unsafe { r_C24_abs_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 1])) }),
    ("C24/signum_i32", "i32", 1, "i32", 1, "uf", |i, o| unsafe { l_C24_signum_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 1])) }, |i, o| unsafe { r_C24_signum_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 1])) }),
    ("C24/copysign_i32", "i32", 2, "i32", 1, "uf", |i, o| unsafe { l_C24_copysign_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 1])) }, |i, o| unsafe { r_C24_copysign_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 1])) }),
    ("C24/max_i32", "i32", 2, "i32", 1, "uf", |i, o| unsafe { l_C24_max_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 1])) }, |i, o| unsafe { r_C24_max_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 1])) }),
    ("C24/min_i32", "i32", 2, "i32", 1, "uf", |i, o| unsafe { l_C24_min_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 1])) }, |i, o| unsafe { r_C24_min_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 1])) }),
    ("C24/clamp_i32", "i32", 3, "i32", 1, "uf", |i, o| unsafe { l_C24_clamp_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 1])) }, |i, o| unsafe { r_C24_clamp_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 1])) }),
    ("C24/bounds_i32", "i32", 1, "i32", 2, "uf", |i, o| unsafe { l_C24_bounds_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C24_bounds_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }),
    ("C24/signs_i64", "i64", 1, "u8", 2, "uf", |i, o| unsafe { l_C24_signs_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C24_signs_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C24/abs_i64", "i64", 1, "i64", 1, "uf", |i, o| unsafe { l_C24_abs_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 1])) }, |i, o| unsafe { r_C24_abs_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 1])) }),
    ("C24/signum_i64", "i64", 1, "i64", 1, "uf", |i, o| unsafe { l_C24_signum_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 1])) }, |i, o| unsafe { r_C24_signum_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 1])) }),
    ("C24/copysign_i64", "i64", 2, "i64", 1, "uf", |i, o| unsafe { l_C24_copysign_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 1])) }, |i, o| unsafe { r_C24_copysign_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 1])) }),
    ("C24/max_i64", "i64", 2, "i64", 1, "uf", |i, o| unsafe { l_C24_max_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 1])) }, |i, o| unsafe { r_C24_max_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 1])) }),
    ("C24/min_i64", "i64", 2, "i64", 1, "uf", |i, o| unsafe { l_C24_min_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 1])) }, |i, o| unsafe { r_C24_min_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 1])) }),
    ("C24/clamp_i64", "i64", 3, "i64", 1, "uf", |i, o| unsafe { l_C24_clamp_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 1])) }, |i, o| unsafe { r_C24_clamp_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 1])) }),
    ("C24/bounds_i64", "i64", 1, "i64", 2, "uf", |i, o| unsafe { l_C24_bounds_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C24_bounds_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }),
    ("C24/signs_i128", "i128", 1, "u8", 2, "uf", |i, o| unsafe { l_C24_signs_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C24_signs_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C24/abs_i128", "i128", 1, "i128", 1, "uf", |i, o| unsafe { l_C24_abs_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 1])) }, |i, o| unsafe { r_C24_abs_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 1])) }),
    ("C24/signum_i128", "i128", 1, "i128", 1, "uf", |i, o| unsafe { l_C24_signum_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 1])) }, |i, o| unsafe { r_C24_signum_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 1])) }),
    ("C24/copysign_i128", "i128", 2, "i128", 1, "uf", |i, o| unsafe { l_C24_copysign_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 1])) }, |i, o| unsafe { r_C24_copysign_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 1])) }),
    ("C24/max_i128", "i128", 2, "i128", 1, "uf", |i, o| unsafe { l_C24_max_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 1])) }, |i, o| unsafe { r_C24_max_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 1])) }),
    ("C24/min_i128", "i128", 2, "i128", 1, "uf", |i, o| unsafe { l_C24_min_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 1])) }, |i, o| unsafe { r_C24_min_i128(&*(i as *const [i128; 2]), &mut *(o as *mut [i128; 1])) }),
    ("C24/clamp_i128", "i128", 3, "i128", 1, "uf", |i, o| unsafe { l_C24_clamp_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 1])) }, |i, o| unsafe { r_C24_clamp_i128(&*(i as *const [i128; 3]), &mut *(o as *mut [i128; 1])) }),
    ("C24/bounds_i128", "i128", 1, "i128", 2, "uf", |i, o| unsafe { l_C24_bounds_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 2])) }, |i, o| unsafe { r_C24_bounds_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 2])) }),
    ("C24/signs_isize", "isize", 1, "u8", 2, "uf", |i, o| unsafe { l_C24_signs_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C24_signs_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C24/abs_isize", "isize", 1, "isize", 1, "uf", |i, o| unsafe { l_C24_abs_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 1])) }, |i, o| unsafe { r_C24_abs_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 1])) }),
    ("C24/signum_isize", "isize", 1, "isize", 1, "uf", |i, o| unsafe { l_C24_signum_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 1])) }, |i, o| unsafe { r_C24_signum_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 1])) }),
    ("C24/copysign_isize", "isize", 2, "isize", 1, "uf", |i, o| unsafe { l_C24_copysign_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 1])) }, |i, o| unsafe { r_C24_copysign_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 1])) }),
    ("C24/max_isize", "isize", 2, "isize", 1, "uf", |i, o| unsafe { l_C24_max_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 1])) }, |i, o| unsafe { r_C24_max_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 1])) }),
    ("C24/min_isize", "isize", 2, "isize", 1, "uf", |i, o| unsafe { l_C24_min_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 1])) }, |i, o| unsafe { r_C24_min_isize(&*(i as *const [isize; 2]), &mut *(o as *mut [isize; 1])) }),
    ("C24/clamp_isize", "isize", 3, "isize", 1, "uf", |i, o| unsafe { l_C24_clamp_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 1])) }, |i, o| unsafe { r_C24_clamp_isize(&*(i as *const [isize; 3]), &mut *(o as *mut [isize; 1])) }),
    ("C24/bounds_isize", "isize", 1, "isize", 2, "uf", |i, o| unsafe { l_C24_bounds_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 2])) }, |i, o| unsafe { r_C24_bounds_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 2])) }),
    ("C27/acosh_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_acosh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_acosh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/acos_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_acos_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_acos_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/cosh_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_cosh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_cosh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/cos_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_cos_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_cos_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/sinh_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_sinh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_sinh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/sin_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_sin_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_sin_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/asinh_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_asinh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_asinh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/asin_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_asin_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_asin_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/tanh_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_tanh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_tanh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/tan_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_tan_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_tan_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/atanh_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_atanh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_atanh_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/atan_f32", "f32", 2, "f32", 4, "lim", |i, o| unsafe { l_C27_atan_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C27_atan_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C27/classify_f32", "f32", 2, "u8", 3, "uf", |i, o| unsafe { l_C27_classify_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C27_classify_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C27/is_finite_radians_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_degrees_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_degrees_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_degrees_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector1_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector2_f32", "f32", 2, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector3_f32", "f32", 3, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector4_f32", "f32", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector5_f32", "f32", 5, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector5_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector5_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector9_f32", "f32", 9, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector9_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector9_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_quaternion_f32", "f32", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix1x1_f32", "f32", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix1x1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix1x1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix2x2_f32", "f32", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix3x3_f32", "f32", 9, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix3x3_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix3x3_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix4x4_f32", "f32", 16, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix4x4_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix4x4_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix2x3_f32", "f32", 6, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix2x3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix2x3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix3x2_f32", "f32", 6, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix3x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix3x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix4x3_f32", "f32", 12, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix4x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix4x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix1x4_f32", "f32", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix1x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix1x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix5x3_f32", "f32", 15, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix5x3_f32(&*(i as *const [f32; 15]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix5x3_f32(&*(i as *const [f32; 15]), &mut *(o as *mut [u8; 1])) }),
    ("C27/acosh_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_acosh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_acosh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/acos_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_acos_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_acos_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/cosh_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_cosh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_cosh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/cos_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_cos_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_cos_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/sinh_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_sinh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_sinh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/sin_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_sin_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_sin_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/asinh_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_asinh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_asinh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/asin_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_asin_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_asin_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/tanh_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_tanh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_tanh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/tan_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_tan_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_tan_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/atanh_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_atanh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_atanh_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/atan_f64", "f64", 2, "f64", 4, "lim", |i, o| unsafe { l_C27_atan_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C27_atan_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C27/classify_f64", "f64", 2, "u8", 3, "uf", |i, o| unsafe { l_C27_classify_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C27_classify_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C27/is_finite_radians_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_degrees_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_degrees_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_degrees_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector1_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector2_f64", "f64", 2, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector3_f64", "f64", 3, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector4_f64", "f64", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector5_f64", "f64", 5, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector5_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector5_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_vector9_f64", "f64", 9, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_vector9_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_vector9_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_quaternion_f64", "f64", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix1x1_f64", "f64", 1, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix1x1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix1x1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix2x2_f64", "f64", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix3x3_f64", "f64", 9, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix3x3_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix3x3_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix4x4_f64", "f64", 16, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix4x4_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix4x4_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix2x3_f64", "f64", 6, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix2x3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix2x3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix3x2_f64", "f64", 6, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix3x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix3x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix4x3_f64", "f64", 12, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix4x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix4x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix1x4_f64", "f64", 4, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix1x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix1x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 1])) }),
    ("C27/is_finite_matrix5x3_f64", "f64", 15, "u8", 1, "uf", |i, o| unsafe { l_C27_is_finite_matrix5x3_f64(&*(i as *const [f64; 15]), &mut *(o as *mut [u8; 1])) }, |i, o| unsafe { r_C27_is_finite_matrix5x3_f64(&*(i as *const [f64; 15]), &mut *(o as *mut [u8; 1])) }),
    ("C08/cast_u8_u8", "u8", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_u8_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_u8_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_u8_u8", "u8", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u8_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u8_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_u8_u16", "u8", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_u8_u16(&*(i as *const [u8; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_u8_u16(&*(i as *const [u8; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_u8_u32", "u8", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_u8_u32(&*(i as *const [u8; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_u8_u32(&*(i as *const [u8; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_u8_u32", "u8", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u8_u32(&*(i as *const [u8; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u8_u32(&*(i as *const [u8; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_u8_u64", "u8", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_u8_u64(&*(i as *const [u8; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_u8_u64(&*(i as *const [u8; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_u8_u64", "u8", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u8_u64(&*(i as *const [u8; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u8_u64(&*(i as *const [u8; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_u8_u128", "u8", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_u8_u128(&*(i as *const [u8; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_u8_u128(&*(i as *const [u8; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_u8_usize", "u8", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_u8_usize(&*(i as *const [u8; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_u8_usize(&*(i as *const [u8; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_u8_i8", "u8", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_u8_i8(&*(i as *const [u8; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_u8_i8(&*(i as *const [u8; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_u8_i8", "u8", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u8_i8(&*(i as *const [u8; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u8_i8(&*(i as *const [u8; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_u8_i16", "u8", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_u8_i16(&*(i as *const [u8; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_u8_i16(&*(i as *const [u8; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_u8_i32", "u8", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_u8_i32(&*(i as *const [u8; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_u8_i32(&*(i as *const [u8; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_u8_i32", "u8", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u8_i32(&*(i as *const [u8; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u8_i32(&*(i as *const [u8; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_u8_i64", "u8", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_u8_i64(&*(i as *const [u8; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_u8_i64(&*(i as *const [u8; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_u8_i64", "u8", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u8_i64(&*(i as *const [u8; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u8_i64(&*(i as *const [u8; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_u8_i128", "u8", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_u8_i128(&*(i as *const [u8; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_u8_i128(&*(i as *const [u8; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_u8_isize", "u8", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_u8_isize(&*(i as *const [u8; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_u8_isize(&*(i as *const [u8; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_u8_f32", "u8", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_u8_f32(&*(i as *const [u8; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_u8_f32(&*(i as *const [u8; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_u8_f64", "u8", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_u8_f64(&*(i as *const [u8; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_u8_f64(&*(i as *const [u8; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_u16_u8", "u16", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_u16_u8(&*(i as *const [u16; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_u16_u8(&*(i as *const [u16; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_u16_u8", "u16", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u16_u8(&*(i as *const [u16; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u16_u8(&*(i as *const [u16; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_u16_u16", "u16", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_u16_u16(&*(i as *const [u16; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_u16_u16(&*(i as *const [u16; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_u16_u32", "u16", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_u16_u32(&*(i as *const [u16; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_u16_u32(&*(i as *const [u16; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_u16_u32", "u16", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u16_u32(&*(i as *const [u16; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u16_u32(&*(i as *const [u16; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_u16_u64", "u16", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_u16_u64(&*(i as *const [u16; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_u16_u64(&*(i as *const [u16; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_u16_u64", "u16", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u16_u64(&*(i as *const [u16; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u16_u64(&*(i as *const [u16; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_u16_u128", "u16", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_u16_u128(&*(i as *const [u16; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_u16_u128(&*(i as *const [u16; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_u16_usize", "u16", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_u16_usize(&*(i as *const [u16; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_u16_usize(&*(i as *const [u16; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_u16_i8", "u16", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_u16_i8(&*(i as *const [u16; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_u16_i8(&*(i as *const [u16; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_u16_i8", "u16", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u16_i8(&*(i as *const [u16; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u16_i8(&*(i as *const [u16; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_u16_i16", "u16", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_u16_i16(&*(i as *const [u16; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_u16_i16(&*(i as *const [u16; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_u16_i32", "u16", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_u16_i32(&*(i as *const [u16; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_u16_i32(&*(i as *const [u16; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_u16_i32", "u16", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u16_i32(&*(i as *const [u16; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u16_i32(&*(i as *const [u16; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_u16_i64", "u16", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_u16_i64(&*(i as *const [u16; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_u16_i64(&*(i as *const [u16; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_u16_i64", "u16", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u16_i64(&*(i as *const [u16; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u16_i64(&*(i as *const [u16; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_u16_i128", "u16", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_u16_i128(&*(i as *const [u16; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_u16_i128(&*(i as *const [u16; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_u16_isize", "u16", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_u16_isize(&*(i as *const [u16; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_u16_isize(&*(i as *const [u16; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_u16_f32", "u16", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_u16_f32(&*(i as *const [u16; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_u16_f32(&*(i as *const [u16; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_u16_f64", "u16", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_u16_f64(&*(i as *const [u16; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_u16_f64(&*(i as *const [u16; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_u32_u8", "u32", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_u32_u8(&*(i as *const [u32; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_u32_u8(&*(i as *const [u32; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_u32_u8", "u32", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u32_u8(&*(i as *const [u32; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u32_u8(&*(i as *const [u32; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_u32_u16", "u32", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_u32_u16(&*(i as *const [u32; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_u32_u16(&*(i as *const [u32; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_u32_u32", "u32", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_u32_u32(&*(i as *const [u32; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_u32_u32(&*(i as *const [u32; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_u32_u32", "u32", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u32_u32(&*(i as *const [u32; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u32_u32(&*(i as *const [u32; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_u32_u64", "u32", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_u32_u64(&*(i as *const [u32; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_u32_u64(&*(i as *const [u32; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_u32_u64", "u32", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u32_u64(&*(i as *const [u32; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u32_u64(&*(i as *const [u32; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_u32_u128", "u32", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_u32_u128(&*(i as *const [u32; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_u32_u128(&*(i as *const [u32; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_u32_usize", "u32", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_u32_usize(&*(i as *const [u32; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_u32_usize(&*(i as *const [u32; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_u32_i8", "u32", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_u32_i8(&*(i as *const [u32; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_u32_i8(&*(i as *const [u32; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_u32_i8", "u32", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u32_i8(&*(i as *const [u32; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u32_i8(&*(i as *const [u32; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_u32_i16", "u32", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_u32_i16(&*(i as *const [u32; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_u32_i16(&*(i as *const [u32; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_u32_i32", "u32", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_u32_i32(&*(i as *const [u32; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_u32_i32(&*(i as *const [u32; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_u32_i32", "u32", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u32_i32(&*(i as *const [u32; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u32_i32(&*(i as *const [u32; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_u32_i64", "u32", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_u32_i64(&*(i as *const [u32; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_u32_i64(&*(i as *const [u32; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_u32_i64", "u32", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u32_i64(&*(i as *const [u32; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u32_i64(&*(i as *const [u32; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_u32_i128", "u32", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_u32_i128(&*(i as *const [u32; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_u32_i128(&*(i as *const [u32; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_u32_isize", "u32", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_u32_isize(&*(i as *const [u32; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_u32_isize(&*(i as *const [u32; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_u32_f32", "u32", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_u32_f32(&*(i as *const [u32; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_u32_f32(&*(i as *const [u32; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_u32_f64", "u32", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_u32_f64(&*(i as *const [u32; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_u32_f64(&*(i as *const [u32; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_u64_u8", "u64", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_u64_u8(&*(i as *const [u64; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_u64_u8(&*(i as *const [u64; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_u64_u8", "u64", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u64_u8(&*(i as *const [u64; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u64_u8(&*(i as *const [u64; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_u64_u16", "u64", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_u64_u16(&*(i as *const [u64; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_u64_u16(&*(i as *const [u64; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_u64_u32", "u64", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_u64_u32(&*(i as *const [u64; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_u64_u32(&*(i as *const [u64; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_u64_u32", "u64", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u64_u32(&*(i as *const [u64; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u64_u32(&*(i as *const [u64; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_u64_u64", "u64", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_u64_u64(&*(i as *const [u64; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_u64_u64(&*(i as *const [u64; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_u64_u64", "u64", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u64_u64(&*(i as *const [u64; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u64_u64(&*(i as *const [u64; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_u64_u128", "u64", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_u64_u128(&*(i as *const [u64; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_u64_u128(&*(i as *const [u64; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_u64_usize", "u64", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_u64_usize(&*(i as *const [u64; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_u64_usize(&*(i as *const [u64; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_u64_i8", "u64", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_u64_i8(&*(i as *const [u64; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_u64_i8(&*(i as *const [u64; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_u64_i8", "u64", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u64_i8(&*(i as *const [u64; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u64_i8(&*(i as *const [u64; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_u64_i16", "u64", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_u64_i16(&*(i as *const [u64; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_u64_i16(&*(i as *const [u64; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_u64_i32", "u64", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_u64_i32(&*(i as *const [u64; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_u64_i32(&*(i as *const [u64; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_u64_i32", "u64", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u64_i32(&*(i as *const [u64; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u64_i32(&*(i as *const [u64; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_u64_i64", "u64", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_u64_i64(&*(i as *const [u64; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_u64_i64(&*(i as *const [u64; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_u64_i64", "u64", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u64_i64(&*(i as *const [u64; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u64_i64(&*(i as *const [u64; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_u64_i128", "u64", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_u64_i128(&*(i as *const [u64; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_u64_i128(&*(i as *const [u64; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_u64_isize", "u64", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_u64_isize(&*(i as *const [u64; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_u64_isize(&*(i as *const [u64; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_u64_f32", "u64", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_u64_f32(&*(i as *const [u64; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_u64_f32(&*(i as *const [u64; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_u64_f64", "u64", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_u64_f64(&*(i as *const [u64; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_u64_f64(&*(i as *const [u64; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_u128_u8", "u128", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_u128_u8(&*(i as *const [u128; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_u128_u8(&*(i as *const [u128; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_u128_u8", "u128", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u128_u8(&*(i as *const [u128; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u128_u8(&*(i as *const [u128; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_u128_u16", "u128", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_u128_u16(&*(i as *const [u128; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_u128_u16(&*(i as *const [u128; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_u128_u32", "u128", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_u128_u32(&*(i as *const [u128; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_u128_u32(&*(i as *const [u128; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_u128_u32", "u128", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u128_u32(&*(i as *const [u128; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u128_u32(&*(i as *const [u128; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_u128_u64", "u128", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_u128_u64(&*(i as *const [u128; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_u128_u64(&*(i as *const [u128; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_u128_u64", "u128", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u128_u64(&*(i as *const [u128; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u128_u64(&*(i as *const [u128; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_u128_u128", "u128", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_u128_u128(&*(i as *const [u128; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_u128_u128(&*(i as *const [u128; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_u128_usize", "u128", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_u128_usize(&*(i as *const [u128; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_u128_usize(&*(i as *const [u128; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_u128_i8", "u128", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_u128_i8(&*(i as *const [u128; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_u128_i8(&*(i as *const [u128; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_u128_i8", "u128", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u128_i8(&*(i as *const [u128; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u128_i8(&*(i as *const [u128; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_u128_i16", "u128", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_u128_i16(&*(i as *const [u128; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_u128_i16(&*(i as *const [u128; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_u128_i32", "u128", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_u128_i32(&*(i as *const [u128; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_u128_i32(&*(i as *const [u128; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_u128_i32", "u128", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u128_i32(&*(i as *const [u128; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u128_i32(&*(i as *const [u128; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_u128_i64", "u128", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_u128_i64(&*(i as *const [u128; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_u128_i64(&*(i as *const [u128; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_u128_i64", "u128", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_u128_i64(&*(i as *const [u128; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_u128_i64(&*(i as *const [u128; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_u128_i128", "u128", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_u128_i128(&*(i as *const [u128; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_u128_i128(&*(i as *const [u128; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_u128_isize", "u128", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_u128_isize(&*(i as *const [u128; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_u128_isize(&*(i as *const [u128; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_u128_f32", "u128", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_u128_f32(&*(i as *const [u128; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_u128_f32(&*(i as *const [u128; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_u128_f64", "u128", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_u128_f64(&*(i as *const [u128; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_u128_f64(&*(i as *const [u128; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_usize_u8", "usize", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_usize_u8(&*(i as *const [usize; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_usize_u8(&*(i as *const [usize; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_usize_u8", "usize", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_usize_u8(&*(i as *const [usize; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_usize_u8(&*(i as *const [usize; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_usize_u16", "usize", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_usize_u16(&*(i as *const [usize; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_usize_u16(&*(i as *const [usize; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_usize_u32", "usize", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_usize_u32(&*(i as *const [usize; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_usize_u32(&*(i as *const [usize; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_usize_u32", "usize", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_usize_u32(&*(i as *const [usize; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_usize_u32(&*(i as *const [usize; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_usize_u64", "usize", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_usize_u64(&*(i as *const [usize; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_usize_u64(&*(i as *const [usize; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_usize_u64", "usize", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_usize_u64(&*(i as *const [usize; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_usize_u64(&*(i as *const [usize; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_usize_u128", "usize", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_usize_u128(&*(i as *const [usize; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_usize_u128(&*(i as *const [usize; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_usize_usize", "usize", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_usize_usize(&*(i as *const [usize; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_usize_usize(&*(i as *const [usize; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_usize_i8", "usize", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_usize_i8(&*(i as *const [usize; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_usize_i8(&*(i as *const [usize; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_usize_i8", "usize", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_usize_i8(&*(i as *const [usize; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_usize_i8(&*(i as *const [usize; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_usize_i16", "usize", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_usize_i16(&*(i as *const [usize; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_usize_i16(&*(i as *const [usize; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_usize_i32", "usize", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_usize_i32(&*(i as *const [usize; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_usize_i32(&*(i as *const [usize; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_usize_i32", "usize", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_usize_i32(&*(i as *const [usize; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_usize_i32(&*(i as *const [usize; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_usize_i64", "usize", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_usize_i64(&*(i as *const [usize; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_usize_i64(&*(i as *const [usize; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_usize_i64", "usize", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_usize_i64(&*(i as *const [usize; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_usize_i64(&*(i as *const [usize; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_usize_i128", "usize", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_usize_i128(&*(i as *const [usize; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_usize_i128(&*(i as *const [usize; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_usize_isize", "usize", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_usize_isize(&*(i as *const [usize; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_usize_isize(&*(i as *const [usize; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_usize_f32", "usize", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_usize_f32(&*(i as *const [usize; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_usize_f32(&*(i as *const [usize; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_usize_f64", "usize", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_usize_f64(&*(i as *const [usize; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_usize_f64(&*(i as *const [usize; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_i8_u8", "i8", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_i8_u8(&*(i as *const [i8; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_i8_u8(&*(i as *const [i8; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_i8_u8", "i8", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i8_u8(&*(i as *const [i8; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i8_u8(&*(i as *const [i8; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_i8_u16", "i8", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_i8_u16(&*(i as *const [i8; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_i8_u16(&*(i as *const [i8; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_i8_u32", "i8", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_i8_u32(&*(i as *const [i8; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_i8_u32(&*(i as *const [i8; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_i8_u32", "i8", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i8_u32(&*(i as *const [i8; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i8_u32(&*(i as *const [i8; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_i8_u64", "i8", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_i8_u64(&*(i as *const [i8; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_i8_u64(&*(i as *const [i8; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_i8_u64", "i8", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i8_u64(&*(i as *const [i8; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i8_u64(&*(i as *const [i8; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_i8_u128", "i8", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_i8_u128(&*(i as *const [i8; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_i8_u128(&*(i as *const [i8; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_i8_usize", "i8", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_i8_usize(&*(i as *const [i8; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_i8_usize(&*(i as *const [i8; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_i8_i8", "i8", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_i8_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_i8_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_i8_i8", "i8", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i8_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i8_i8(&*(i as *const [i8; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_i8_i16", "i8", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_i8_i16(&*(i as *const [i8; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_i8_i16(&*(i as *const [i8; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_i8_i32", "i8", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_i8_i32(&*(i as *const [i8; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_i8_i32(&*(i as *const [i8; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_i8_i32", "i8", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i8_i32(&*(i as *const [i8; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i8_i32(&*(i as *const [i8; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_i8_i64", "i8", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_i8_i64(&*(i as *const [i8; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_i8_i64(&*(i as *const [i8; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_i8_i64", "i8", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i8_i64(&*(i as *const [i8; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i8_i64(&*(i as *const [i8; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_i8_i128", "i8", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_i8_i128(&*(i as *const [i8; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_i8_i128(&*(i as *const [i8; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_i8_isize", "i8", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_i8_isize(&*(i as *const [i8; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_i8_isize(&*(i as *const [i8; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_i8_f32", "i8", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_i8_f32(&*(i as *const [i8; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_i8_f32(&*(i as *const [i8; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_i8_f64", "i8", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_i8_f64(&*(i as *const [i8; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_i8_f64(&*(i as *const [i8; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_i16_u8", "i16", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_i16_u8(&*(i as *const [i16; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_i16_u8(&*(i as *const [i16; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_i16_u8", "i16", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i16_u8(&*(i as *const [i16; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i16_u8(&*(i as *const [i16; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_i16_u16", "i16", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_i16_u16(&*(i as *const [i16; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_i16_u16(&*(i as *const [i16; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_i16_u32", "i16", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_i16_u32(&*(i as *const [i16; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_i16_u32(&*(i as *const [i16; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_i16_u32", "i16", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i16_u32(&*(i as *const [i16; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i16_u32(&*(i as *const [i16; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_i16_u64", "i16", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_i16_u64(&*(i as *const [i16; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_i16_u64(&*(i as *const [i16; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_i16_u64", "i16", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i16_u64(&*(i as *const [i16; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i16_u64(&*(i as *const [i16; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_i16_u128", "i16", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_i16_u128(&*(i as *const [i16; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_i16_u128(&*(i as *const [i16; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_i16_usize", "i16", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_i16_usize(&*(i as *const [i16; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_i16_usize(&*(i as *const [i16; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_i16_i8", "i16", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_i16_i8(&*(i as *const [i16; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_i16_i8(&*(i as *const [i16; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_i16_i8", "i16", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i16_i8(&*(i as *const [i16; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i16_i8(&*(i as *const [i16; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_i16_i16", "i16", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_i16_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_i16_i16(&*(i as *const [i16; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_i16_i32", "i16", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_i16_i32(&*(i as *const [i16; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_i16_i32(&*(i as *const [i16; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_i16_i32", "i16", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i16_i32(&*(i as *const [i16; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i16_i32(&*(i as *const [i16; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_i16_i64", "i16", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_i16_i64(&*(i as *const [i16; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_i16_i64(&*(i as *const [i16; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_i16_i64", "i16", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i16_i64(&*(i as *const [i16; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i16_i64(&*(i as *const [i16; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_i16_i128", "i16", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_i16_i128(&*(i as *const [i16; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_i16_i128(&*(i as *const [i16; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_i16_isize", "i16", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_i16_isize(&*(i as *const [i16; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_i16_isize(&*(i as *const [i16; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_i16_f32", "i16", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_i16_f32(&*(i as *const [i16; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_i16_f32(&*(i as *const [i16; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_i16_f64", "i16", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_i16_f64(&*(i as *const [i16; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_i16_f64(&*(i as *const [i16; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_i32_u8", "i32", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_i32_u8(&*(i as *const [i32; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_i32_u8(&*(i as *const [i32; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_i32_u8", "i32", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i32_u8(&*(i as *const [i32; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i32_u8(&*(i as *const [i32; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_i32_u16", "i32", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_i32_u16(&*(i as *const [i32; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_i32_u16(&*(i as *const [i32; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_i32_u32", "i32", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_i32_u32(&*(i as *const [i32; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_i32_u32(&*(i as *const [i32; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_i32_u32", "i32", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i32_u32(&*(i as *const [i32; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i32_u32(&*(i as *const [i32; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_i32_u64", "i32", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_i32_u64(&*(i as *const [i32; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_i32_u64(&*(i as *const [i32; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_i32_u64", "i32", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i32_u64(&*(i as *const [i32; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i32_u64(&*(i as *const [i32; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_i32_u128", "i32", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_i32_u128(&*(i as *const [i32; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_i32_u128(&*(i as *const [i32; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_i32_usize", "i32", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_i32_usize(&*(i as *const [i32; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_i32_usize(&*(i as *const [i32; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_i32_i8", "i32", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_i32_i8(&*(i as *const [i32; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_i32_i8(&*(i as *const [i32; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_i32_i8", "i32", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i32_i8(&*(i as *const [i32; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i32_i8(&*(i as *const [i32; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_i32_i16", "i32", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_i32_i16(&*(i as *const [i32; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_i32_i16(&*(i as *const [i32; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_i32_i32", "i32", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_i32_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_i32_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_i32_i32", "i32", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i32_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i32_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_i32_i64", "i32", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_i32_i64(&*(i as *const [i32; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_i32_i64(&*(i as *const [i32; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_i32_i64", "i32", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i32_i64(&*(i as *const [i32; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i32_i64(&*(i as *const [i32; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_i32_i128", "i32", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_i32_i128(&*(i as *const [i32; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_i32_i128(&*(i as *const [i32; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_i32_isize", "i32", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_i32_isize(&*(i as *const [i32; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_i32_isize(&*(i as *const [i32; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_i32_f32", "i32", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_i32_f32(&*(i as *const [i32; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_i32_f32(&*(i as *const [i32; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_i32_f64", "i32", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_i32_f64(&*(i as *const [i32; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_i32_f64(&*(i as *const [i32; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_i64_u8", "i64", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_i64_u8(&*(i as *const [i64; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_i64_u8(&*(i as *const [i64; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_i64_u8", "i64", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i64_u8(&*(i as *const [i64; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i64_u8(&*(i as *const [i64; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_i64_u16", "i64", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_i64_u16(&*(i as *const [i64; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_i64_u16(&*(i as *const [i64; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_i64_u32", "i64", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_i64_u32(&*(i as *const [i64; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_i64_u32(&*(i as *const [i64; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_i64_u32", "i64", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i64_u32(&*(i as *const [i64; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i64_u32(&*(i as *const [i64; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_i64_u64", "i64", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_i64_u64(&*(i as *const [i64; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_i64_u64(&*(i as *const [i64; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_i64_u64", "i64", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i64_u64(&*(i as *const [i64; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i64_u64(&*(i as *const [i64; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_i64_u128", "i64", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_i64_u128(&*(i as *const [i64; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_i64_u128(&*(i as *const [i64; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_i64_usize", "i64", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_i64_usize(&*(i as *const [i64; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_i64_usize(&*(i as *const [i64; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_i64_i8", "i64", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_i64_i8(&*(i as *const [i64; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_i64_i8(&*(i as *const [i64; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_i64_i8", "i64", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i64_i8(&*(i as *const [i64; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i64_i8(&*(i as *const [i64; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_i64_i16", "i64", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_i64_i16(&*(i as *const [i64; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_i64_i16(&*(i as *const [i64; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_i64_i32", "i64", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_i64_i32(&*(i as *const [i64; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_i64_i32(&*(i as *const [i64; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_i64_i32", "i64", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i64_i32(&*(i as *const [i64; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i64_i32(&*(i as *const [i64; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_i64_i64", "i64", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_i64_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_i64_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_i64_i64", "i64", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i64_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i64_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_i64_i128", "i64", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_i64_i128(&*(i as *const [i64; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_i64_i128(&*(i as *const [i64; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_i64_isize", "i64", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_i64_isize(&*(i as *const [i64; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_i64_isize(&*(i as *const [i64; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_i64_f32", "i64", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_i64_f32(&*(i as *const [i64; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_i64_f32(&*(i as *const [i64; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_i64_f64", "i64", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_i64_f64(&*(i as *const [i64; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_i64_f64(&*(i as *const [i64; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_i128_u8", "i128", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_i128_u8(&*(i as *const [i128; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_i128_u8(&*(i as *const [i128; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_i128_u8", "i128", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i128_u8(&*(i as *const [i128; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i128_u8(&*(i as *const [i128; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_i128_u16", "i128", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_i128_u16(&*(i as *const [i128; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_i128_u16(&*(i as *const [i128; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_i128_u32", "i128", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_i128_u32(&*(i as *const [i128; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_i128_u32(&*(i as *const [i128; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_i128_u32", "i128", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i128_u32(&*(i as *const [i128; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i128_u32(&*(i as *const [i128; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_i128_u64", "i128", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_i128_u64(&*(i as *const [i128; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_i128_u64(&*(i as *const [i128; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_i128_u64", "i128", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i128_u64(&*(i as *const [i128; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i128_u64(&*(i as *const [i128; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_i128_u128", "i128", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_i128_u128(&*(i as *const [i128; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_i128_u128(&*(i as *const [i128; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_i128_usize", "i128", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_i128_usize(&*(i as *const [i128; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_i128_usize(&*(i as *const [i128; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_i128_i8", "i128", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_i128_i8(&*(i as *const [i128; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_i128_i8(&*(i as *const [i128; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_i128_i8", "i128", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i128_i8(&*(i as *const [i128; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i128_i8(&*(i as *const [i128; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_i128_i16", "i128", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_i128_i16(&*(i as *const [i128; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_i128_i16(&*(i as *const [i128; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_i128_i32", "i128", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_i128_i32(&*(i as *const [i128; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_i128_i32(&*(i as *const [i128; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_i128_i32", "i128", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i128_i32(&*(i as *const [i128; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i128_i32(&*(i as *const [i128; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_i128_i64", "i128", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_i128_i64(&*(i as *const [i128; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_i128_i64(&*(i as *const [i128; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_i128_i64", "i128", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_i128_i64(&*(i as *const [i128; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_i128_i64(&*(i as *const [i128; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_i128_i128", "i128", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_i128_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_i128_i128(&*(i as *const [i128; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_i128_isize", "i128", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_i128_isize(&*(i as *const [i128; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_i128_isize(&*(i as *const [i128; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_i128_f32", "i128", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_i128_f32(&*(i as *const [i128; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_i128_f32(&*(i as *const [i128; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_i128_f64", "i128", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_i128_f64(&*(i as *const [i128; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_i128_f64(&*(i as *const [i128; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_isize_u8", "isize", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_isize_u8(&*(i as *const [isize; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_isize_u8(&*(i as *const [isize; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_isize_u8", "isize", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_isize_u8(&*(i as *const [isize; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_isize_u8(&*(i as *const [isize; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_isize_u16", "isize", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_isize_u16(&*(i as *const [isize; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_isize_u16(&*(i as *const [isize; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_isize_u32", "isize", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_isize_u32(&*(i as *const [isize; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_isize_u32(&*(i as *const [isize; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_isize_u32", "isize", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_isize_u32(&*(i as *const [isize; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_isize_u32(&*(i as *const [isize; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_isize_u64", "isize", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_isize_u64(&*(i as *const [isize; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_isize_u64(&*(i as *const [isize; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_isize_u64", "isize", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_isize_u64(&*(i as *const [isize; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_isize_u64(&*(i as *const [isize; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_isize_u128", "isize", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_isize_u128(&*(i as *const [isize; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_isize_u128(&*(i as *const [isize; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_isize_usize", "isize", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_isize_usize(&*(i as *const [isize; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_isize_usize(&*(i as *const [isize; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_isize_i8", "isize", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_isize_i8(&*(i as *const [isize; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_isize_i8(&*(i as *const [isize; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_isize_i8", "isize", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_isize_i8(&*(i as *const [isize; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_isize_i8(&*(i as *const [isize; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_isize_i16", "isize", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_isize_i16(&*(i as *const [isize; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_isize_i16(&*(i as *const [isize; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_isize_i32", "isize", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_isize_i32(&*(i as *const [isize; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_isize_i32(&*(i as *const [isize; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_isize_i32", "isize", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_isize_i32(&*(i as *const [isize; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_isize_i32(&*(i as *const [isize; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_isize_i64", "isize", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_isize_i64(&*(i as *const [isize; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_isize_i64(&*(i as *const [isize; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_isize_i64", "isize", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_isize_i64(&*(i as *const [isize; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_isize_i64(&*(i as *const [isize; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_isize_i128", "isize", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_isize_i128(&*(i as *const [isize; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_isize_i128(&*(i as *const [isize; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_isize_isize", "isize", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_isize_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_isize_isize(&*(i as *const [isize; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_isize_f32", "isize", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_isize_f32(&*(i as *const [isize; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_isize_f32(&*(i as *const [isize; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_isize_f64", "isize", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_isize_f64(&*(i as *const [isize; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_isize_f64(&*(i as *const [isize; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_f32_u8", "f32", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_f32_u8(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_f32_u8(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_f32_u8", "f32", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f32_u8(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f32_u8(&*(i as *const [f32; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_f32_u16", "f32", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_f32_u16(&*(i as *const [f32; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_f32_u16(&*(i as *const [f32; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_f32_u32", "f32", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_f32_u32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_f32_u32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_f32_u32", "f32", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f32_u32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f32_u32(&*(i as *const [f32; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_f32_u64", "f32", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_f32_u64(&*(i as *const [f32; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_f32_u64(&*(i as *const [f32; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_f32_u64", "f32", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f32_u64(&*(i as *const [f32; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f32_u64(&*(i as *const [f32; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_f32_u128", "f32", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_f32_u128(&*(i as *const [f32; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_f32_u128(&*(i as *const [f32; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_f32_usize", "f32", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_f32_usize(&*(i as *const [f32; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_f32_usize(&*(i as *const [f32; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_f32_i8", "f32", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_f32_i8(&*(i as *const [f32; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_f32_i8(&*(i as *const [f32; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_f32_i8", "f32", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f32_i8(&*(i as *const [f32; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f32_i8(&*(i as *const [f32; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_f32_i16", "f32", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_f32_i16(&*(i as *const [f32; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_f32_i16(&*(i as *const [f32; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_f32_i32", "f32", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_f32_i32(&*(i as *const [f32; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_f32_i32(&*(i as *const [f32; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_f32_i32", "f32", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f32_i32(&*(i as *const [f32; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f32_i32(&*(i as *const [f32; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_f32_i64", "f32", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_f32_i64(&*(i as *const [f32; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_f32_i64(&*(i as *const [f32; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_f32_i64", "f32", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f32_i64(&*(i as *const [f32; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f32_i64(&*(i as *const [f32; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_f32_i128", "f32", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_f32_i128(&*(i as *const [f32; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_f32_i128(&*(i as *const [f32; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_f32_isize", "f32", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_f32_isize(&*(i as *const [f32; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_f32_isize(&*(i as *const [f32; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_f32_f32", "f32", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_f32_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_f32_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_f32_f64", "f32", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_f32_f64(&*(i as *const [f32; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_f32_f64(&*(i as *const [f32; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C08/cast_f64_u8", "f64", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_f64_u8(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_f64_u8(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_or_panic_f64_u8", "f64", 1, "u8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f64_u8(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f64_u8(&*(i as *const [f64; 1]), &mut *(o as *mut [u8; 3])) }),
    ("C08/cast_f64_u16", "f64", 1, "u16", 3, "sel", |i, o| unsafe { l_C08_cast_f64_u16(&*(i as *const [f64; 1]), &mut *(o as *mut [u16; 3])) }, |i, o| unsafe { r_C08_cast_f64_u16(&*(i as *const [f64; 1]), &mut *(o as *mut [u16; 3])) }),
    ("C08/cast_f64_u32", "f64", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_f64_u32(&*(i as *const [f64; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_f64_u32(&*(i as *const [f64; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_or_panic_f64_u32", "f64", 1, "u32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f64_u32(&*(i as *const [f64; 1]), &mut *(o as *mut [u32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f64_u32(&*(i as *const [f64; 1]), &mut *(o as *mut [u32; 3])) }),
    ("C08/cast_f64_u64", "f64", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_f64_u64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_f64_u64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_or_panic_f64_u64", "f64", 1, "u64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f64_u64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f64_u64(&*(i as *const [f64; 1]), &mut *(o as *mut [u64; 3])) }),
    ("C08/cast_f64_u128", "f64", 1, "u128", 3, "sel", |i, o| unsafe { l_C08_cast_f64_u128(&*(i as *const [f64; 1]), &mut *(o as *mut [u128; 3])) }, |i, o| unsafe { r_C08_cast_f64_u128(&*(i as *const [f64; 1]), &mut *(o as *mut [u128; 3])) }),
    ("C08/cast_f64_usize", "f64", 1, "usize", 3, "sel", |i, o| unsafe { l_C08_cast_f64_usize(&*(i as *const [f64; 1]), &mut *(o as *mut [usize; 3])) }, |i, o| unsafe { r_C08_cast_f64_usize(&*(i as *const [f64; 1]), &mut *(o as *mut [usize; 3])) }),
    ("C08/cast_f64_i8", "f64", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_f64_i8(&*(i as *const [f64; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_f64_i8(&*(i as *const [f64; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_or_panic_f64_i8", "f64", 1, "i8", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f64_i8(&*(i as *const [f64; 1]), &mut *(o as *mut [i8; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f64_i8(&*(i as *const [f64; 1]), &mut *(o as *mut [i8; 3])) }),
    ("C08/cast_f64_i16", "f64", 1, "i16", 3, "sel", |i, o| unsafe { l_C08_cast_f64_i16(&*(i as *const [f64; 1]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C08_cast_f64_i16(&*(i as *const [f64; 1]), &mut *(o as *mut [i16; 3])) }),
    ("C08/cast_f64_i32", "f64", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_f64_i32(&*(i as *const [f64; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_f64_i32(&*(i as *const [f64; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_or_panic_f64_i32", "f64", 1, "i32", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f64_i32(&*(i as *const [f64; 1]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f64_i32(&*(i as *const [f64; 1]), &mut *(o as *mut [i32; 3])) }),
    ("C08/cast_f64_i64", "f64", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_f64_i64(&*(i as *const [f64; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_f64_i64(&*(i as *const [f64; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_or_panic_f64_i64", "f64", 1, "i64", 3, "sel", |i, o| unsafe { l_C08_cast_or_panic_f64_i64(&*(i as *const [f64; 1]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C08_cast_or_panic_f64_i64(&*(i as *const [f64; 1]), &mut *(o as *mut [i64; 3])) }),
    ("C08/cast_f64_i128", "f64", 1, "i128", 3, "sel", |i, o| unsafe { l_C08_cast_f64_i128(&*(i as *const [f64; 1]), &mut *(o as *mut [i128; 3])) }, |i, o| unsafe { r_C08_cast_f64_i128(&*(i as *const [f64; 1]), &mut *(o as *mut [i128; 3])) }),
    ("C08/cast_f64_isize", "f64", 1, "isize", 3, "sel", |i, o| unsafe { l_C08_cast_f64_isize(&*(i as *const [f64; 1]), &mut *(o as *mut [isize; 3])) }, |i, o| unsafe { r_C08_cast_f64_isize(&*(i as *const [f64; 1]), &mut *(o as *mut [isize; 3])) }),
    ("C08/cast_f64_f32", "f64", 1, "f32", 3, "sel", |i, o| unsafe { l_C08_cast_f64_f32(&*(i as *const [f64; 1]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C08_cast_f64_f32(&*(i as *const [f64; 1]), &mut *(o as *mut [f32; 3])) }),
    ("C08/cast_f64_f64", "f64", 1, "f64", 3, "sel", |i, o| unsafe { l_C08_cast_f64_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C08_cast_f64_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 3])) }),
    ("C01/mul_scalar_vector1_u8", "u8", 2, "u8", 3, "all", |i, o| unsafe { l_C01_mul_scalar_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_mul_scalar_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C01/div_scalar_vector1_u8", "u8", 2, "u8", 3, "uf", |i, o| unsafe { l_C01_div_scalar_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_div_scalar_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C01/rem_scalar_vector1_u8", "u8", 2, "u8", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_rem_scalar_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C01/add_vector1_u8", "u8", 2, "u8", 6, "all", |i, o| unsafe { l_C01_add_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_add_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }),
    ("C01/sub_vector1_u8", "u8", 2, "u8", 6, "all", |i, o| unsafe { l_C01_sub_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_sub_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }),
    ("C01/mul_scalar_vector2_u8", "u8", 3, "u8", 6, "all", |i, o| unsafe { l_C01_mul_scalar_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_mul_scalar_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C01/div_scalar_vector2_u8", "u8", 3, "u8", 6, "uf", |i, o| unsafe { l_C01_div_scalar_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_div_scalar_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C01/rem_scalar_vector2_u8", "u8", 3, "u8", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_rem_scalar_vector2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C01/add_vector2_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C01_add_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_add_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C01/sub_vector2_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C01_sub_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_sub_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C01/mul_scalar_vector3_u8", "u8", 4, "u8", 9, "all", |i, o| unsafe { l_C01_mul_scalar_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C01_mul_scalar_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C01/div_scalar_vector3_u8", "u8", 4, "u8", 9, "uf", |i, o| unsafe { l_C01_div_scalar_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C01_div_scalar_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C01/rem_scalar_vector3_u8", "u8", 4, "u8", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C01_rem_scalar_vector3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C01/add_vector3_u8", "u8", 6, "u8", 18, "all", |i, o| unsafe { l_C01_add_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C01_add_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }),
    ("C01/sub_vector3_u8", "u8", 6, "u8", 18, "all", |i, o| unsafe { l_C01_sub_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C01_sub_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }),
    ("C01/mul_scalar_vector4_u8", "u8", 5, "u8", 12, "all", |i, o| unsafe { l_C01_mul_scalar_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_mul_scalar_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C01/div_scalar_vector4_u8", "u8", 5, "u8", 12, "uf", |i, o| unsafe { l_C01_div_scalar_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_div_scalar_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C01/rem_scalar_vector4_u8", "u8", 5, "u8", 12, "uf", |i, o| unsafe { l_C01_rem_scalar_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_rem_scalar_vector4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C01/add_vector4_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C01_add_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C01_add_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C01/sub_vector4_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C01_sub_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C01_sub_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C01/mul_scalar_point1_u8", "u8", 2, "u8", 3, "all", |i, o| unsafe { l_C01_mul_scalar_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_mul_scalar_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C01/div_scalar_point1_u8", "u8", 2, "u8", 3, "uf", |i, o| unsafe { l_C01_div_scalar_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_div_scalar_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C01/rem_scalar_point1_u8", "u8", 2, "u8", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_rem_scalar_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C01/add_point1_u8", "u8", 2, "u8", 6, "all", |i, o| unsafe { l_C01_add_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_add_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }),
    ("C01/sub_point1_u8", "u8", 2, "u8", 6, "all", |i, o| unsafe { l_C01_sub_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_sub_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }),
    ("C01/mul_scalar_point2_u8", "u8", 3, "u8", 6, "all", |i, o| unsafe { l_C01_mul_scalar_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_mul_scalar_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C01/div_scalar_point2_u8", "u8", 3, "u8", 6, "uf", |i, o| unsafe { l_C01_div_scalar_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_div_scalar_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C01/rem_scalar_point2_u8", "u8", 3, "u8", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C01_rem_scalar_point2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C01/add_point2_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C01_add_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_add_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C01/sub_point2_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C01_sub_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C01_sub_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C01/mul_scalar_point3_u8", "u8", 4, "u8", 9, "all", |i, o| unsafe { l_C01_mul_scalar_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C01_mul_scalar_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C01/div_scalar_point3_u8", "u8", 4, "u8", 9, "uf", |i, o| unsafe { l_C01_div_scalar_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C01_div_scalar_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C01/rem_scalar_point3_u8", "u8", 4, "u8", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C01_rem_scalar_point3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C01/add_point3_u8", "u8", 6, "u8", 18, "all", |i, o| unsafe { l_C01_add_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C01_add_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }),
    ("C01/sub_point3_u8", "u8", 6, "u8", 18, "all", |i, o| unsafe { l_C01_sub_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C01_sub_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 18])) }),
    ("C04/mul_scalar_matrix1x1_u8", "u8", 2, "u8", 3, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C04/div_scalar_matrix1x1_u8", "u8", 2, "u8", 3, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C04/rem_scalar_matrix1x1_u8", "u8", 2, "u8", 3, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C04/add_matrix1x1_u8", "u8", 2, "u8", 6, "all", |i, o| unsafe { l_C04_add_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C04_add_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }),
    ("C04/sub_matrix1x1_u8", "u8", 2, "u8", 6, "all", |i, o| unsafe { l_C04_sub_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C04_sub_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 6])) }),
    ("C04/mul_scalar_matrix2x2_u8", "u8", 5, "u8", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C04/div_scalar_matrix2x2_u8", "u8", 5, "u8", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C04/rem_scalar_matrix2x2_u8", "u8", 5, "u8", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x2_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C04/add_matrix2x2_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C04_add_matrix2x2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_add_matrix2x2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C04/sub_matrix2x2_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C04_sub_matrix2x2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_sub_matrix2x2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C04/mul_scalar_matrix3x3_u8", "u8", 10, "u8", 27, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 27])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 27])) }),
    ("C04/div_scalar_matrix3x3_u8", "u8", 10, "u8", 27, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 27])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 27])) }),
    ("C04/rem_scalar_matrix3x3_u8", "u8", 10, "u8", 27, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 27])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x3_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 27])) }),
    ("C04/add_matrix3x3_u8", "u8", 18, "u8", 54, "all", |i, o| unsafe { l_C04_add_matrix3x3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 54])) }, |i, o| unsafe { r_C04_add_matrix3x3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 54])) }),
    ("C04/sub_matrix3x3_u8", "u8", 18, "u8", 54, "all", |i, o| unsafe { l_C04_sub_matrix3x3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 54])) }, |i, o| unsafe { r_C04_sub_matrix3x3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 54])) }),
    ("C04/mul_scalar_matrix4x4_u8", "u8", 17, "u8", 48, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 48])) }),
    ("C04/div_scalar_matrix4x4_u8", "u8", 17, "u8", 48, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 48])) }),
    ("C04/rem_scalar_matrix4x4_u8", "u8", 17, "u8", 48, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x4_u8(&*(i as *const [u8; 17]), &mut *(o as *mut [u8; 48])) }),
    ("C04/add_matrix4x4_u8", "u8", 32, "u8", 96, "all", |i, o| unsafe { l_C04_add_matrix4x4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 96])) }, |i, o| unsafe { r_C04_add_matrix4x4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 96])) }),
    ("C04/sub_matrix4x4_u8", "u8", 32, "u8", 96, "all", |i, o| unsafe { l_C04_sub_matrix4x4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 96])) }, |i, o| unsafe { r_C04_sub_matrix4x4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 96])) }),
    ("C04/mul_scalar_matrix2x3_u8", "u8", 7, "u8", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }),
    ("C04/div_scalar_matrix2x3_u8", "u8", 7, "u8", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }),
    ("C04/rem_scalar_matrix2x3_u8", "u8", 7, "u8", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x3_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }),
    ("C04/add_matrix2x3_u8", "u8", 12, "u8", 36, "all", |i, o| unsafe { l_C04_add_matrix2x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_add_matrix2x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }),
    ("C04/sub_matrix2x3_u8", "u8", 12, "u8", 36, "all", |i, o| unsafe { l_C04_sub_matrix2x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_sub_matrix2x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }),
    ("C04/mul_scalar_matrix3x2_u8", "u8", 7, "u8", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }),
    ("C04/div_scalar_matrix3x2_u8", "u8", 7, "u8", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }),
    ("C04/rem_scalar_matrix3x2_u8", "u8", 7, "u8", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x2_u8(&*(i as *const [u8; 7]), &mut *(o as *mut [u8; 18])) }),
    ("C04/add_matrix3x2_u8", "u8", 12, "u8", 36, "all", |i, o| unsafe { l_C04_add_matrix3x2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_add_matrix3x2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }),
    ("C04/sub_matrix3x2_u8", "u8", 12, "u8", 36, "all", |i, o| unsafe { l_C04_sub_matrix3x2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_sub_matrix3x2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 36])) }),
    ("C04/mul_scalar_matrix4x3_u8", "u8", 13, "u8", 36, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 36])) }),
    ("C04/div_scalar_matrix4x3_u8", "u8", 13, "u8", 36, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 36])) }),
    ("C04/rem_scalar_matrix4x3_u8", "u8", 13, "u8", 36, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 36])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x3_u8(&*(i as *const [u8; 13]), &mut *(o as *mut [u8; 36])) }),
    ("C04/add_matrix4x3_u8", "u8", 24, "u8", 72, "all", |i, o| unsafe { l_C04_add_matrix4x3_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 72])) }, |i, o| unsafe { r_C04_add_matrix4x3_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 72])) }),
    ("C04/sub_matrix4x3_u8", "u8", 24, "u8", 72, "all", |i, o| unsafe { l_C04_sub_matrix4x3_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 72])) }, |i, o| unsafe { r_C04_sub_matrix4x3_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 72])) }),
    ("C04/mul_scalar_matrix1x4_u8", "u8", 5, "u8", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C04/div_scalar_matrix1x4_u8", "u8", 5, "u8", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C04/rem_scalar_matrix1x4_u8", "u8", 5, "u8", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x4_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 12])) }),
    ("C04/add_matrix1x4_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C04_add_matrix1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_add_matrix1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C04/sub_matrix1x4_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C04_sub_matrix1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_sub_matrix1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C04/mul_scalar_matrix4x2_u8", "u8", 9, "u8", 24, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 24])) }),
    ("C04/div_scalar_matrix4x2_u8", "u8", 9, "u8", 24, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 24])) }),
    ("C04/rem_scalar_matrix4x2_u8", "u8", 9, "u8", 24, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x2_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 24])) }),
    ("C04/add_matrix4x2_u8", "u8", 16, "u8", 48, "all", |i, o| unsafe { l_C04_add_matrix4x2_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C04_add_matrix4x2_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 48])) }),
    ("C04/sub_matrix4x2_u8", "u8", 16, "u8", 48, "all", |i, o| unsafe { l_C04_sub_matrix4x2_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 48])) }, |i, o| unsafe { r_C04_sub_matrix4x2_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 48])) }),
    ("C10/mul_scalar_quaternion_u8", "u8", 5, "u8", 20, "all", |i, o| unsafe { l_C10_mul_scalar_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 20])) }, |i, o| unsafe { r_C10_mul_scalar_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 20])) }),
    ("C10/div_scalar_quaternion_u8", "u8", 5, "u8", 20, "uf", |i, o| unsafe { l_C10_div_scalar_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 20])) }, |i, o| unsafe { r_C10_div_scalar_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 20])) }),
    ("C10/rem_scalar_quaternion_u8", "u8", 5, "u8", 20, "uf", |i, o| unsafe { l_C10_rem_scalar_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 20])) }, |i, o| unsafe { r_C10_rem_scalar_quaternion_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 20])) }),
    ("C10/add_quaternion_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C10_add_quaternion_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C10_add_quaternion_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C10/sub_quaternion_u8", "u8", 8, "u8", 24, "all", |i, o| unsafe { l_C10_sub_quaternion_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C10_sub_quaternion_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 24])) }),
    ("C15/mul_scalar_complex_u8", "u8", 3, "u8", 10, "all", |i, o| unsafe { l_C15_mul_scalar_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 10])) }, |i, o| unsafe { r_C15_mul_scalar_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 10])) }),
    ("C15/div_scalar_complex_u8", "u8", 3, "u8", 10, "uf", |i, o| unsafe { l_C15_div_scalar_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 10])) }, |i, o| unsafe { r_C15_div_scalar_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 10])) }),
    ("C15/rem_scalar_complex_u8", "u8", 3, "u8", 10, "uf", |i, o| unsafe { l_C15_rem_scalar_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 10])) }, |i, o| unsafe { r_C15_rem_scalar_complex_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 10])) }),
    ("C15/add_complex_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C15_add_complex_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C15_add_complex_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C15/sub_complex_u8", "u8", 4, "u8", 12, "all", |i, o| unsafe { l_C15_sub_complex_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C15_sub_complex_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C01/mul_scalar_vector1_i16", "i16", 2, "i16", 3, "all", |i, o| unsafe { l_C01_mul_scalar_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C01_mul_scalar_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C01/div_scalar_vector1_i16", "i16", 2, "i16", 3, "uf", |i, o| unsafe { l_C01_div_scalar_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C01_div_scalar_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C01/rem_scalar_vector1_i16", "i16", 2, "i16", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C01_rem_scalar_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C01/add_vector1_i16", "i16", 2, "i16", 6, "all", |i, o| unsafe { l_C01_add_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_add_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }),
    ("C01/sub_vector1_i16", "i16", 2, "i16", 6, "all", |i, o| unsafe { l_C01_sub_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_sub_vector1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }),
    ("C01/mul_scalar_vector2_i16", "i16", 3, "i16", 6, "all", |i, o| unsafe { l_C01_mul_scalar_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_mul_scalar_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }),
    ("C01/div_scalar_vector2_i16", "i16", 3, "i16", 6, "uf", |i, o| unsafe { l_C01_div_scalar_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_div_scalar_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }),
    ("C01/rem_scalar_vector2_i16", "i16", 3, "i16", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_rem_scalar_vector2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }),
    ("C01/add_vector2_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C01_add_vector2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_add_vector2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C01/sub_vector2_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C01_sub_vector2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_sub_vector2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C01/mul_scalar_vector3_i16", "i16", 4, "i16", 9, "all", |i, o| unsafe { l_C01_mul_scalar_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }, |i, o| unsafe { r_C01_mul_scalar_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }),
    ("C01/div_scalar_vector3_i16", "i16", 4, "i16", 9, "uf", |i, o| unsafe { l_C01_div_scalar_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }, |i, o| unsafe { r_C01_div_scalar_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }),
    ("C01/rem_scalar_vector3_i16", "i16", 4, "i16", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }, |i, o| unsafe { r_C01_rem_scalar_vector3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }),
    ("C01/add_vector3_i16", "i16", 6, "i16", 18, "all", |i, o| unsafe { l_C01_add_vector3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C01_add_vector3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }),
    ("C01/sub_vector3_i16", "i16", 6, "i16", 18, "all", |i, o| unsafe { l_C01_sub_vector3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C01_sub_vector3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }),
    ("C01/mul_scalar_vector4_i16", "i16", 5, "i16", 12, "all", |i, o| unsafe { l_C01_mul_scalar_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_mul_scalar_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C01/div_scalar_vector4_i16", "i16", 5, "i16", 12, "uf", |i, o| unsafe { l_C01_div_scalar_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_div_scalar_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C01/rem_scalar_vector4_i16", "i16", 5, "i16", 12, "uf", |i, o| unsafe { l_C01_rem_scalar_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_rem_scalar_vector4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C01/add_vector4_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C01_add_vector4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C01_add_vector4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C01/sub_vector4_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C01_sub_vector4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C01_sub_vector4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C01/mul_scalar_point1_i16", "i16", 2, "i16", 3, "all", |i, o| unsafe { l_C01_mul_scalar_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C01_mul_scalar_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C01/div_scalar_point1_i16", "i16", 2, "i16", 3, "uf", |i, o| unsafe { l_C01_div_scalar_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C01_div_scalar_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C01/rem_scalar_point1_i16", "i16", 2, "i16", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C01_rem_scalar_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C01/add_point1_i16", "i16", 2, "i16", 6, "all", |i, o| unsafe { l_C01_add_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_add_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }),
    ("C01/sub_point1_i16", "i16", 2, "i16", 6, "all", |i, o| unsafe { l_C01_sub_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_sub_point1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }),
    ("C01/mul_scalar_point2_i16", "i16", 3, "i16", 6, "all", |i, o| unsafe { l_C01_mul_scalar_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_mul_scalar_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }),
    ("C01/div_scalar_point2_i16", "i16", 3, "i16", 6, "uf", |i, o| unsafe { l_C01_div_scalar_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_div_scalar_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }),
    ("C01/rem_scalar_point2_i16", "i16", 3, "i16", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C01_rem_scalar_point2_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 6])) }),
    ("C01/add_point2_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C01_add_point2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_add_point2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C01/sub_point2_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C01_sub_point2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C01_sub_point2_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C01/mul_scalar_point3_i16", "i16", 4, "i16", 9, "all", |i, o| unsafe { l_C01_mul_scalar_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }, |i, o| unsafe { r_C01_mul_scalar_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }),
    ("C01/div_scalar_point3_i16", "i16", 4, "i16", 9, "uf", |i, o| unsafe { l_C01_div_scalar_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }, |i, o| unsafe { r_C01_div_scalar_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }),
    ("C01/rem_scalar_point3_i16", "i16", 4, "i16", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }, |i, o| unsafe { r_C01_rem_scalar_point3_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 9])) }),
    ("C01/add_point3_i16", "i16", 6, "i16", 18, "all", |i, o| unsafe { l_C01_add_point3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C01_add_point3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }),
    ("C01/sub_point3_i16", "i16", 6, "i16", 18, "all", |i, o| unsafe { l_C01_sub_point3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C01_sub_point3_i16(&*(i as *const [i16; 6]), &mut *(o as *mut [i16; 18])) }),
    ("C04/mul_scalar_matrix1x1_i16", "i16", 2, "i16", 3, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C04/div_scalar_matrix1x1_i16", "i16", 2, "i16", 3, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C04/rem_scalar_matrix1x1_i16", "i16", 2, "i16", 3, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 3])) }),
    ("C04/add_matrix1x1_i16", "i16", 2, "i16", 6, "all", |i, o| unsafe { l_C04_add_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C04_add_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }),
    ("C04/sub_matrix1x1_i16", "i16", 2, "i16", 6, "all", |i, o| unsafe { l_C04_sub_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }, |i, o| unsafe { r_C04_sub_matrix1x1_i16(&*(i as *const [i16; 2]), &mut *(o as *mut [i16; 6])) }),
    ("C04/mul_scalar_matrix2x2_i16", "i16", 5, "i16", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C04/div_scalar_matrix2x2_i16", "i16", 5, "i16", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C04/rem_scalar_matrix2x2_i16", "i16", 5, "i16", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x2_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C04/add_matrix2x2_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C04_add_matrix2x2_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_add_matrix2x2_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C04/sub_matrix2x2_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C04_sub_matrix2x2_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_sub_matrix2x2_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C04/mul_scalar_matrix3x3_i16", "i16", 10, "i16", 27, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 27])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 27])) }),
    ("C04/div_scalar_matrix3x3_i16", "i16", 10, "i16", 27, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 27])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 27])) }),
    ("C04/rem_scalar_matrix3x3_i16", "i16", 10, "i16", 27, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 27])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x3_i16(&*(i as *const [i16; 10]), &mut *(o as *mut [i16; 27])) }),
    ("C04/add_matrix3x3_i16", "i16", 18, "i16", 54, "all", |i, o| unsafe { l_C04_add_matrix3x3_i16(&*(i as *const [i16; 18]), &mut *(o as *mut [i16; 54])) }, |i, o| unsafe { r_C04_add_matrix3x3_i16(&*(i as *const [i16; 18]), &mut *(o as *mut [i16; 54])) }),
    ("C04/sub_matrix3x3_i16", "i16", 18, "i16", 54, "all", |i, o| unsafe { l_C04_sub_matrix3x3_i16(&*(i as *const [i16; 18]), &mut *(o as *mut [i16; 54])) }, |i, o| unsafe { r_C04_sub_matrix3x3_i16(&*(i as *const [i16; 18]), &mut *(o as *mut [i16; 54])) }),
    ("C04/mul_scalar_matrix4x4_i16", "i16", 17, "i16", 48, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 48])) }),
    ("C04/div_scalar_matrix4x4_i16", "i16", 17, "i16", 48, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 48])) }),
    ("C04/rem_scalar_matrix4x4_i16", "i16", 17, "i16", 48, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x4_i16(&*(i as *const [i16; 17]), &mut *(o as *mut [i16; 48])) }),
    ("C04/add_matrix4x4_i16", "i16", 32, "i16", 96, "all", |i, o| unsafe { l_C04_add_matrix4x4_i16(&*(i as *const [i16; 32]), &mut *(o as *mut [i16; 96])) }, |i, o| unsafe { r_C04_add_matrix4x4_i16(&*(i as *const [i16; 32]), &mut *(o as *mut [i16; 96])) }),
    ("C04/sub_matrix4x4_i16", "i16", 32, "i16", 96, "all", |i, o| unsafe { l_C04_sub_matrix4x4_i16(&*(i as *const [i16; 32]), &mut *(o as *mut [i16; 96])) }, |i, o| unsafe { r_C04_sub_matrix4x4_i16(&*(i as *const [i16; 32]), &mut *(o as *mut [i16; 96])) }),
    ("C04/mul_scalar_matrix2x3_i16", "i16", 7, "i16", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }),
    ("C04/div_scalar_matrix2x3_i16", "i16", 7, "i16", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }),
    ("C04/rem_scalar_matrix2x3_i16", "i16", 7, "i16", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x3_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }),
    ("C04/add_matrix2x3_i16", "i16", 12, "i16", 36, "all", |i, o| unsafe { l_C04_add_matrix2x3_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_add_matrix2x3_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }),
    ("C04/sub_matrix2x3_i16", "i16", 12, "i16", 36, "all", |i, o| unsafe { l_C04_sub_matrix2x3_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_sub_matrix2x3_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }),
    ("C04/mul_scalar_matrix3x2_i16", "i16", 7, "i16", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }),
    ("C04/div_scalar_matrix3x2_i16", "i16", 7, "i16", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }),
    ("C04/rem_scalar_matrix3x2_i16", "i16", 7, "i16", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x2_i16(&*(i as *const [i16; 7]), &mut *(o as *mut [i16; 18])) }),
    ("C04/add_matrix3x2_i16", "i16", 12, "i16", 36, "all", |i, o| unsafe { l_C04_add_matrix3x2_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_add_matrix3x2_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }),
    ("C04/sub_matrix3x2_i16", "i16", 12, "i16", 36, "all", |i, o| unsafe { l_C04_sub_matrix3x2_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_sub_matrix3x2_i16(&*(i as *const [i16; 12]), &mut *(o as *mut [i16; 36])) }),
    ("C04/mul_scalar_matrix4x3_i16", "i16", 13, "i16", 36, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 36])) }),
    ("C04/div_scalar_matrix4x3_i16", "i16", 13, "i16", 36, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 36])) }),
    ("C04/rem_scalar_matrix4x3_i16", "i16", 13, "i16", 36, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 36])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x3_i16(&*(i as *const [i16; 13]), &mut *(o as *mut [i16; 36])) }),
    ("C04/add_matrix4x3_i16", "i16", 24, "i16", 72, "all", |i, o| unsafe { l_C04_add_matrix4x3_i16(&*(i as *const [i16; 24]), &mut *(o as *mut [i16; 72])) }, |i, o| unsafe { r_C04_add_matrix4x3_i16(&*(i as *const [i16; 24]), &mut *(o as *mut [i16; 72])) }),
    ("C04/sub_matrix4x3_i16", "i16", 24, "i16", 72, "all", |i, o| unsafe { l_C04_sub_matrix4x3_i16(&*(i as *const [i16; 24]), &mut *(o as *mut [i16; 72])) }, |i, o| unsafe { r_C04_sub_matrix4x3_i16(&*(i as *const [i16; 24]), &mut *(o as *mut [i16; 72])) }),
    ("C04/mul_scalar_matrix1x4_i16", "i16", 5, "i16", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C04/div_scalar_matrix1x4_i16", "i16", 5, "i16", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C04/rem_scalar_matrix1x4_i16", "i16", 5, "i16", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x4_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 12])) }),
    ("C04/add_matrix1x4_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C04_add_matrix1x4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_add_matrix1x4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C04/sub_matrix1x4_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C04_sub_matrix1x4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_sub_matrix1x4_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C04/mul_scalar_matrix4x2_i16", "i16", 9, "i16", 24, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 24])) }),
    ("C04/div_scalar_matrix4x2_i16", "i16", 9, "i16", 24, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 24])) }),
    ("C04/rem_scalar_matrix4x2_i16", "i16", 9, "i16", 24, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x2_i16(&*(i as *const [i16; 9]), &mut *(o as *mut [i16; 24])) }),
    ("C04/add_matrix4x2_i16", "i16", 16, "i16", 48, "all", |i, o| unsafe { l_C04_add_matrix4x2_i16(&*(i as *const [i16; 16]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C04_add_matrix4x2_i16(&*(i as *const [i16; 16]), &mut *(o as *mut [i16; 48])) }),
    ("C04/sub_matrix4x2_i16", "i16", 16, "i16", 48, "all", |i, o| unsafe { l_C04_sub_matrix4x2_i16(&*(i as *const [i16; 16]), &mut *(o as *mut [i16; 48])) }, |i, o| unsafe { r_C04_sub_matrix4x2_i16(&*(i as *const [i16; 16]), &mut *(o as *mut [i16; 48])) }),
    ("C10/mul_scalar_quaternion_i16", "i16", 5, "i16", 20, "all", |i, o| unsafe { l_C10_mul_scalar_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 20])) }, |i, o| unsafe { r_C10_mul_scalar_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 20])) }),
    ("C10/div_scalar_quaternion_i16", "i16", 5, "i16", 20, "uf", |i, o| unsafe { l_C10_div_scalar_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 20])) }, |i, o| unsafe { r_C10_div_scalar_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 20])) }),
    ("C10/rem_scalar_quaternion_i16", "i16", 5, "i16", 20, "uf", |i, o| unsafe { l_C10_rem_scalar_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 20])) }, |i, o| unsafe { r_C10_rem_scalar_quaternion_i16(&*(i as *const [i16; 5]), &mut *(o as *mut [i16; 20])) }),
    ("C10/add_quaternion_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C10_add_quaternion_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C10_add_quaternion_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C10/sub_quaternion_i16", "i16", 8, "i16", 24, "all", |i, o| unsafe { l_C10_sub_quaternion_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }, |i, o| unsafe { r_C10_sub_quaternion_i16(&*(i as *const [i16; 8]), &mut *(o as *mut [i16; 24])) }),
    ("C15/mul_scalar_complex_i16", "i16", 3, "i16", 10, "all", |i, o| unsafe { l_C15_mul_scalar_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 10])) }, |i, o| unsafe { r_C15_mul_scalar_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 10])) }),
    ("C15/div_scalar_complex_i16", "i16", 3, "i16", 10, "uf", |i, o| unsafe { l_C15_div_scalar_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 10])) }, |i, o| unsafe { r_C15_div_scalar_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 10])) }),
    ("C15/rem_scalar_complex_i16", "i16", 3, "i16", 10, "uf", |i, o| unsafe { l_C15_rem_scalar_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 10])) }, |i, o| unsafe { r_C15_rem_scalar_complex_i16(&*(i as *const [i16; 3]), &mut *(o as *mut [i16; 10])) }),
    ("C15/add_complex_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C15_add_complex_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C15_add_complex_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C15/sub_complex_i16", "i16", 4, "i16", 12, "all", |i, o| unsafe { l_C15_sub_complex_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C15_sub_complex_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C15/div_complex_i16", "i16", 4, "i16", 12, "uf", |i, o| unsafe { l_C15_div_complex_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }, |i, o| unsafe { r_C15_div_complex_i16(&*(i as *const [i16; 4]), &mut *(o as *mut [i16; 12])) }),
    ("C01/mul_scalar_vector1_i32", "i32", 2, "i32", 3, "all", |i, o| unsafe { l_C01_mul_scalar_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_mul_scalar_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C01/div_scalar_vector1_i32", "i32", 2, "i32", 3, "uf", |i, o| unsafe { l_C01_div_scalar_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_div_scalar_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C01/rem_scalar_vector1_i32", "i32", 2, "i32", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_rem_scalar_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C01/add_vector1_i32", "i32", 2, "i32", 6, "all", |i, o| unsafe { l_C01_add_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_add_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }),
    ("C01/sub_vector1_i32", "i32", 2, "i32", 6, "all", |i, o| unsafe { l_C01_sub_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_sub_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }),
    ("C01/mul_scalar_vector2_i32", "i32", 3, "i32", 6, "all", |i, o| unsafe { l_C01_mul_scalar_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_mul_scalar_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }),
    ("C01/div_scalar_vector2_i32", "i32", 3, "i32", 6, "uf", |i, o| unsafe { l_C01_div_scalar_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_div_scalar_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }),
    ("C01/rem_scalar_vector2_i32", "i32", 3, "i32", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_rem_scalar_vector2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }),
    ("C01/add_vector2_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C01_add_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_add_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C01/sub_vector2_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C01_sub_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_sub_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C01/mul_scalar_vector3_i32", "i32", 4, "i32", 9, "all", |i, o| unsafe { l_C01_mul_scalar_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }, |i, o| unsafe { r_C01_mul_scalar_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }),
    ("C01/div_scalar_vector3_i32", "i32", 4, "i32", 9, "uf", |i, o| unsafe { l_C01_div_scalar_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }, |i, o| unsafe { r_C01_div_scalar_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }),
    ("C01/rem_scalar_vector3_i32", "i32", 4, "i32", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }, |i, o| unsafe { r_C01_rem_scalar_vector3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }),
    ("C01/add_vector3_i32", "i32", 6, "i32", 18, "all", |i, o| unsafe { l_C01_add_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C01_add_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }),
    ("C01/sub_vector3_i32", "i32", 6, "i32", 18, "all", |i, o| unsafe { l_C01_sub_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C01_sub_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }),
    ("C01/mul_scalar_vector4_i32", "i32", 5, "i32", 12, "all", |i, o| unsafe { l_C01_mul_scalar_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_mul_scalar_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C01/div_scalar_vector4_i32", "i32", 5, "i32", 12, "uf", |i, o| unsafe { l_C01_div_scalar_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_div_scalar_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C01/rem_scalar_vector4_i32", "i32", 5, "i32", 12, "uf", |i, o| unsafe { l_C01_rem_scalar_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_rem_scalar_vector4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C01/add_vector4_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C01_add_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C01_add_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C01/sub_vector4_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C01_sub_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C01_sub_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C01/mul_scalar_point1_i32", "i32", 2, "i32", 3, "all", |i, o| unsafe { l_C01_mul_scalar_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_mul_scalar_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C01/div_scalar_point1_i32", "i32", 2, "i32", 3, "uf", |i, o| unsafe { l_C01_div_scalar_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_div_scalar_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C01/rem_scalar_point1_i32", "i32", 2, "i32", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_rem_scalar_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C01/add_point1_i32", "i32", 2, "i32", 6, "all", |i, o| unsafe { l_C01_add_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_add_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }),
    ("C01/sub_point1_i32", "i32", 2, "i32", 6, "all", |i, o| unsafe { l_C01_sub_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_sub_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }),
    ("C01/mul_scalar_point2_i32", "i32", 3, "i32", 6, "all", |i, o| unsafe { l_C01_mul_scalar_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_mul_scalar_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }),
    ("C01/div_scalar_point2_i32", "i32", 3, "i32", 6, "uf", |i, o| unsafe { l_C01_div_scalar_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_div_scalar_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }),
    ("C01/rem_scalar_point2_i32", "i32", 3, "i32", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C01_rem_scalar_point2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 6])) }),
    ("C01/add_point2_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C01_add_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_add_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C01/sub_point2_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C01_sub_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C01_sub_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C01/mul_scalar_point3_i32", "i32", 4, "i32", 9, "all", |i, o| unsafe { l_C01_mul_scalar_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }, |i, o| unsafe { r_C01_mul_scalar_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }),
    ("C01/div_scalar_point3_i32", "i32", 4, "i32", 9, "uf", |i, o| unsafe { l_C01_div_scalar_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }, |i, o| unsafe { r_C01_div_scalar_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }),
    ("C01/rem_scalar_point3_i32", "i32", 4, "i32", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }, |i, o| unsafe { r_C01_rem_scalar_point3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 9])) }),
    ("C01/add_point3_i32", "i32", 6, "i32", 18, "all", |i, o| unsafe { l_C01_add_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C01_add_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }),
    ("C01/sub_point3_i32", "i32", 6, "i32", 18, "all", |i, o| unsafe { l_C01_sub_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C01_sub_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 18])) }),
    ("C04/mul_scalar_matrix1x1_i32", "i32", 2, "i32", 3, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C04/div_scalar_matrix1x1_i32", "i32", 2, "i32", 3, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C04/rem_scalar_matrix1x1_i32", "i32", 2, "i32", 3, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C04/add_matrix1x1_i32", "i32", 2, "i32", 6, "all", |i, o| unsafe { l_C04_add_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C04_add_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }),
    ("C04/sub_matrix1x1_i32", "i32", 2, "i32", 6, "all", |i, o| unsafe { l_C04_sub_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }, |i, o| unsafe { r_C04_sub_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 6])) }),
    ("C04/mul_scalar_matrix2x2_i32", "i32", 5, "i32", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C04/div_scalar_matrix2x2_i32", "i32", 5, "i32", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C04/rem_scalar_matrix2x2_i32", "i32", 5, "i32", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x2_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C04/add_matrix2x2_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C04_add_matrix2x2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_add_matrix2x2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C04/sub_matrix2x2_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C04_sub_matrix2x2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_sub_matrix2x2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C04/mul_scalar_matrix3x3_i32", "i32", 10, "i32", 27, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 27])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 27])) }),
    ("C04/div_scalar_matrix3x3_i32", "i32", 10, "i32", 27, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 27])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 27])) }),
    ("C04/rem_scalar_matrix3x3_i32", "i32", 10, "i32", 27, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 27])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x3_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 27])) }),
    ("C04/add_matrix3x3_i32", "i32", 18, "i32", 54, "all", |i, o| unsafe { l_C04_add_matrix3x3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 54])) }, |i, o| unsafe { r_C04_add_matrix3x3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 54])) }),
    ("C04/sub_matrix3x3_i32", "i32", 18, "i32", 54, "all", |i, o| unsafe { l_C04_sub_matrix3x3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 54])) }, |i, o| unsafe { r_C04_sub_matrix3x3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 54])) }),
    ("C04/mul_scalar_matrix4x4_i32", "i32", 17, "i32", 48, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 48])) }),
    ("C04/div_scalar_matrix4x4_i32", "i32", 17, "i32", 48, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 48])) }),
    ("C04/rem_scalar_matrix4x4_i32", "i32", 17, "i32", 48, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x4_i32(&*(i as *const [i32; 17]), &mut *(o as *mut [i32; 48])) }),
    ("C04/add_matrix4x4_i32", "i32", 32, "i32", 96, "all", |i, o| unsafe { l_C04_add_matrix4x4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 96])) }, |i, o| unsafe { r_C04_add_matrix4x4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 96])) }),
    ("C04/sub_matrix4x4_i32", "i32", 32, "i32", 96, "all", |i, o| unsafe { l_C04_sub_matrix4x4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 96])) }, |i, o| unsafe { r_C04_sub_matrix4x4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 96])) }),
    ("C04/mul_scalar_matrix2x3_i32", "i32", 7, "i32", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }),
    ("C04/div_scalar_matrix2x3_i32", "i32", 7, "i32", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }),
    ("C04/rem_scalar_matrix2x3_i32", "i32", 7, "i32", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x3_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }),
    ("C04/add_matrix2x3_i32", "i32", 12, "i32", 36, "all", |i, o| unsafe { l_C04_add_matrix2x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_add_matrix2x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }),
    ("C04/sub_matrix2x3_i32", "i32", 12, "i32", 36, "all", |i, o| unsafe { l_C04_sub_matrix2x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_sub_matrix2x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }),
    ("C04/mul_scalar_matrix3x2_i32", "i32", 7, "i32", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }),
    ("C04/div_scalar_matrix3x2_i32", "i32", 7, "i32", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }),
    ("C04/rem_scalar_matrix3x2_i32", "i32", 7, "i32", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x2_i32(&*(i as *const [i32; 7]), &mut *(o as *mut [i32; 18])) }),
    ("C04/add_matrix3x2_i32", "i32", 12, "i32", 36, "all", |i, o| unsafe { l_C04_add_matrix3x2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_add_matrix3x2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }),
    ("C04/sub_matrix3x2_i32", "i32", 12, "i32", 36, "all", |i, o| unsafe { l_C04_sub_matrix3x2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_sub_matrix3x2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 36])) }),
    ("C04/mul_scalar_matrix4x3_i32", "i32", 13, "i32", 36, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 36])) }),
    ("C04/div_scalar_matrix4x3_i32", "i32", 13, "i32", 36, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 36])) }),
    ("C04/rem_scalar_matrix4x3_i32", "i32", 13, "i32", 36, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 36])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x3_i32(&*(i as *const [i32; 13]), &mut *(o as *mut [i32; 36])) }),
    ("C04/add_matrix4x3_i32", "i32", 24, "i32", 72, "all", |i, o| unsafe { l_C04_add_matrix4x3_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [i32; 72])) }, |i, o| unsafe { r_C04_add_matrix4x3_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [i32; 72])) }),
    ("C04/sub_matrix4x3_i32", "i32", 24, "i32", 72, "all", |i, o| unsafe { l_C04_sub_matrix4x3_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [i32; 72])) }, |i, o| unsafe { r_C04_sub_matrix4x3_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [i32; 72])) }),
    ("C04/mul_scalar_matrix1x4_i32", "i32", 5, "i32", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C04/div_scalar_matrix1x4_i32", "i32", 5, "i32", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C04/rem_scalar_matrix1x4_i32", "i32", 5, "i32", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x4_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 12])) }),
    ("C04/add_matrix1x4_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C04_add_matrix1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_add_matrix1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C04/sub_matrix1x4_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C04_sub_matrix1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_sub_matrix1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C04/mul_scalar_matrix4x2_i32", "i32", 9, "i32", 24, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 24])) }),
    ("C04/div_scalar_matrix4x2_i32", "i32", 9, "i32", 24, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 24])) }),
    ("C04/rem_scalar_matrix4x2_i32", "i32", 9, "i32", 24, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x2_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 24])) }),
    ("C04/add_matrix4x2_i32", "i32", 16, "i32", 48, "all", |i, o| unsafe { l_C04_add_matrix4x2_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C04_add_matrix4x2_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 48])) }),
    ("C04/sub_matrix4x2_i32", "i32", 16, "i32", 48, "all", |i, o| unsafe { l_C04_sub_matrix4x2_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 48])) }, |i, o| unsafe { r_C04_sub_matrix4x2_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 48])) }),
    ("C10/mul_scalar_quaternion_i32", "i32", 5, "i32", 20, "all", |i, o| unsafe { l_C10_mul_scalar_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 20])) }, |i, o| unsafe { r_C10_mul_scalar_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 20])) }),
    ("C10/div_scalar_quaternion_i32", "i32", 5, "i32", 20, "uf", |i, o| unsafe { l_C10_div_scalar_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 20])) }, |i, o| unsafe { r_C10_div_scalar_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 20])) }),
    ("C10/rem_scalar_quaternion_i32", "i32", 5, "i32", 20, "uf", |i, o| unsafe { l_C10_rem_scalar_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 20])) }, |i, o| unsafe { r_C10_rem_scalar_quaternion_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 20])) }),
    ("C10/add_quaternion_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C10_add_quaternion_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C10_add_quaternion_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C10/sub_quaternion_i32", "i32", 8, "i32", 24, "all", |i, o| unsafe { l_C10_sub_quaternion_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C10_sub_quaternion_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 24])) }),
    ("C15/mul_scalar_complex_i32", "i32", 3, "i32", 10, "all", |i, o| unsafe { l_C15_mul_scalar_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 10])) }, |i, o| unsafe { r_C15_mul_scalar_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 10])) }),
    ("C15/div_scalar_complex_i32", "i32", 3, "i32", 10, "uf", |i, o| unsafe { l_C15_div_scalar_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 10])) }, |i, o| unsafe { r_C15_div_scalar_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 10])) }),
    ("C15/rem_scalar_complex_i32", "i32", 3, "i32", 10, "uf", |i, o| unsafe { l_C15_rem_scalar_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 10])) }, |i, o| unsafe { r_C15_rem_scalar_complex_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 10])) }),
    ("C15/add_complex_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C15_add_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C15_add_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C15/sub_complex_i32", "i32", 4, "i32", 12, "all", |i, o| unsafe { l_C15_sub_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C15_sub_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C15/div_complex_i32", "i32", 4, "i32", 12, "uf", |i, o| unsafe { l_C15_div_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C15_div_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C01/mul_scalar_vector1_u64", "u64", 2, "u64", 3, "all", |i, o| unsafe { l_C01_mul_scalar_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C01_mul_scalar_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C01/div_scalar_vector1_u64", "u64", 2, "u64", 3, "uf", |i, o| unsafe { l_C01_div_scalar_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C01_div_scalar_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C01/rem_scalar_vector1_u64", "u64", 2, "u64", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C01_rem_scalar_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C01/add_vector1_u64", "u64", 2, "u64", 6, "all", |i, o| unsafe { l_C01_add_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_add_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }),
    ("C01/sub_vector1_u64", "u64", 2, "u64", 6, "all", |i, o| unsafe { l_C01_sub_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_sub_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }),
    ("C01/mul_scalar_vector2_u64", "u64", 3, "u64", 6, "all", |i, o| unsafe { l_C01_mul_scalar_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_mul_scalar_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }),
    ("C01/div_scalar_vector2_u64", "u64", 3, "u64", 6, "uf", |i, o| unsafe { l_C01_div_scalar_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_div_scalar_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }),
    ("C01/rem_scalar_vector2_u64", "u64", 3, "u64", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_rem_scalar_vector2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }),
    ("C01/add_vector2_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C01_add_vector2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_add_vector2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C01/sub_vector2_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C01_sub_vector2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_sub_vector2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C01/mul_scalar_vector3_u64", "u64", 4, "u64", 9, "all", |i, o| unsafe { l_C01_mul_scalar_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }, |i, o| unsafe { r_C01_mul_scalar_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }),
    ("C01/div_scalar_vector3_u64", "u64", 4, "u64", 9, "uf", |i, o| unsafe { l_C01_div_scalar_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }, |i, o| unsafe { r_C01_div_scalar_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }),
    ("C01/rem_scalar_vector3_u64", "u64", 4, "u64", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }, |i, o| unsafe { r_C01_rem_scalar_vector3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }),
    ("C01/add_vector3_u64", "u64", 6, "u64", 18, "all", |i, o| unsafe { l_C01_add_vector3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C01_add_vector3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }),
    ("C01/sub_vector3_u64", "u64", 6, "u64", 18, "all", |i, o| unsafe { l_C01_sub_vector3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C01_sub_vector3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }),
    ("C01/mul_scalar_vector4_u64", "u64", 5, "u64", 12, "all", |i, o| unsafe { l_C01_mul_scalar_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_mul_scalar_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C01/div_scalar_vector4_u64", "u64", 5, "u64", 12, "uf", |i, o| unsafe { l_C01_div_scalar_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_div_scalar_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C01/rem_scalar_vector4_u64", "u64", 5, "u64", 12, "uf", |i, o| unsafe { l_C01_rem_scalar_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_rem_scalar_vector4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C01/add_vector4_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C01_add_vector4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C01_add_vector4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C01/sub_vector4_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C01_sub_vector4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C01_sub_vector4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C01/mul_scalar_point1_u64", "u64", 2, "u64", 3, "all", |i, o| unsafe { l_C01_mul_scalar_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C01_mul_scalar_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C01/div_scalar_point1_u64", "u64", 2, "u64", 3, "uf", |i, o| unsafe { l_C01_div_scalar_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C01_div_scalar_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C01/rem_scalar_point1_u64", "u64", 2, "u64", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C01_rem_scalar_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C01/add_point1_u64", "u64", 2, "u64", 6, "all", |i, o| unsafe { l_C01_add_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_add_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }),
    ("C01/sub_point1_u64", "u64", 2, "u64", 6, "all", |i, o| unsafe { l_C01_sub_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_sub_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }),
    ("C01/mul_scalar_point2_u64", "u64", 3, "u64", 6, "all", |i, o| unsafe { l_C01_mul_scalar_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_mul_scalar_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }),
    ("C01/div_scalar_point2_u64", "u64", 3, "u64", 6, "uf", |i, o| unsafe { l_C01_div_scalar_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_div_scalar_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }),
    ("C01/rem_scalar_point2_u64", "u64", 3, "u64", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C01_rem_scalar_point2_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 6])) }),
    ("C01/add_point2_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C01_add_point2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_add_point2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C01/sub_point2_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C01_sub_point2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C01_sub_point2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C01/mul_scalar_point3_u64", "u64", 4, "u64", 9, "all", |i, o| unsafe { l_C01_mul_scalar_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }, |i, o| unsafe { r_C01_mul_scalar_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }),
    ("C01/div_scalar_point3_u64", "u64", 4, "u64", 9, "uf", |i, o| unsafe { l_C01_div_scalar_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }, |i, o| unsafe { r_C01_div_scalar_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }),
    ("C01/rem_scalar_point3_u64", "u64", 4, "u64", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }, |i, o| unsafe { r_C01_rem_scalar_point3_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 9])) }),
    ("C01/add_point3_u64", "u64", 6, "u64", 18, "all", |i, o| unsafe { l_C01_add_point3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C01_add_point3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }),
    ("C01/sub_point3_u64", "u64", 6, "u64", 18, "all", |i, o| unsafe { l_C01_sub_point3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C01_sub_point3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u64; 18])) }),
    ("C04/mul_scalar_matrix1x1_u64", "u64", 2, "u64", 3, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C04/div_scalar_matrix1x1_u64", "u64", 2, "u64", 3, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C04/rem_scalar_matrix1x1_u64", "u64", 2, "u64", 3, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 3])) }),
    ("C04/add_matrix1x1_u64", "u64", 2, "u64", 6, "all", |i, o| unsafe { l_C04_add_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C04_add_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }),
    ("C04/sub_matrix1x1_u64", "u64", 2, "u64", 6, "all", |i, o| unsafe { l_C04_sub_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }, |i, o| unsafe { r_C04_sub_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u64; 6])) }),
    ("C04/mul_scalar_matrix2x2_u64", "u64", 5, "u64", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C04/div_scalar_matrix2x2_u64", "u64", 5, "u64", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C04/rem_scalar_matrix2x2_u64", "u64", 5, "u64", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x2_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C04/add_matrix2x2_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C04_add_matrix2x2_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_add_matrix2x2_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C04/sub_matrix2x2_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C04_sub_matrix2x2_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_sub_matrix2x2_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C04/mul_scalar_matrix3x3_u64", "u64", 10, "u64", 27, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 27])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 27])) }),
    ("C04/div_scalar_matrix3x3_u64", "u64", 10, "u64", 27, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 27])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 27])) }),
    ("C04/rem_scalar_matrix3x3_u64", "u64", 10, "u64", 27, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 27])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x3_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u64; 27])) }),
    ("C04/add_matrix3x3_u64", "u64", 18, "u64", 54, "all", |i, o| unsafe { l_C04_add_matrix3x3_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u64; 54])) }, |i, o| unsafe { r_C04_add_matrix3x3_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u64; 54])) }),
    ("C04/sub_matrix3x3_u64", "u64", 18, "u64", 54, "all", |i, o| unsafe { l_C04_sub_matrix3x3_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u64; 54])) }, |i, o| unsafe { r_C04_sub_matrix3x3_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u64; 54])) }),
    ("C04/mul_scalar_matrix4x4_u64", "u64", 17, "u64", 48, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 48])) }),
    ("C04/div_scalar_matrix4x4_u64", "u64", 17, "u64", 48, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 48])) }),
    ("C04/rem_scalar_matrix4x4_u64", "u64", 17, "u64", 48, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x4_u64(&*(i as *const [u64; 17]), &mut *(o as *mut [u64; 48])) }),
    ("C04/add_matrix4x4_u64", "u64", 32, "u64", 96, "all", |i, o| unsafe { l_C04_add_matrix4x4_u64(&*(i as *const [u64; 32]), &mut *(o as *mut [u64; 96])) }, |i, o| unsafe { r_C04_add_matrix4x4_u64(&*(i as *const [u64; 32]), &mut *(o as *mut [u64; 96])) }),
    ("C04/sub_matrix4x4_u64", "u64", 32, "u64", 96, "all", |i, o| unsafe { l_C04_sub_matrix4x4_u64(&*(i as *const [u64; 32]), &mut *(o as *mut [u64; 96])) }, |i, o| unsafe { r_C04_sub_matrix4x4_u64(&*(i as *const [u64; 32]), &mut *(o as *mut [u64; 96])) }),
    ("C04/mul_scalar_matrix2x3_u64", "u64", 7, "u64", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }),
    ("C04/div_scalar_matrix2x3_u64", "u64", 7, "u64", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }),
    ("C04/rem_scalar_matrix2x3_u64", "u64", 7, "u64", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x3_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }),
    ("C04/add_matrix2x3_u64", "u64", 12, "u64", 36, "all", |i, o| unsafe { l_C04_add_matrix2x3_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_add_matrix2x3_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }),
    ("C04/sub_matrix2x3_u64", "u64", 12, "u64", 36, "all", |i, o| unsafe { l_C04_sub_matrix2x3_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_sub_matrix2x3_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }),
    ("C04/mul_scalar_matrix3x2_u64", "u64", 7, "u64", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }),
    ("C04/div_scalar_matrix3x2_u64", "u64", 7, "u64", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }),
    ("C04/rem_scalar_matrix3x2_u64", "u64", 7, "u64", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x2_u64(&*(i as *const [u64; 7]), &mut *(o as *mut [u64; 18])) }),
    ("C04/add_matrix3x2_u64", "u64", 12, "u64", 36, "all", |i, o| unsafe { l_C04_add_matrix3x2_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_add_matrix3x2_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }),
    ("C04/sub_matrix3x2_u64", "u64", 12, "u64", 36, "all", |i, o| unsafe { l_C04_sub_matrix3x2_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_sub_matrix3x2_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u64; 36])) }),
    ("C04/mul_scalar_matrix4x3_u64", "u64", 13, "u64", 36, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 36])) }),
    ("C04/div_scalar_matrix4x3_u64", "u64", 13, "u64", 36, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 36])) }),
    ("C04/rem_scalar_matrix4x3_u64", "u64", 13, "u64", 36, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 36])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x3_u64(&*(i as *const [u64; 13]), &mut *(o as *mut [u64; 36])) }),
    ("C04/add_matrix4x3_u64", "u64", 24, "u64", 72, "all", |i, o| unsafe { l_C04_add_matrix4x3_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u64; 72])) }, |i, o| unsafe { r_C04_add_matrix4x3_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u64; 72])) }),
    ("C04/sub_matrix4x3_u64", "u64", 24, "u64", 72, "all", |i, o| unsafe { l_C04_sub_matrix4x3_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u64; 72])) }, |i, o| unsafe { r_C04_sub_matrix4x3_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u64; 72])) }),
    ("C04/mul_scalar_matrix1x4_u64", "u64", 5, "u64", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C04/div_scalar_matrix1x4_u64", "u64", 5, "u64", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C04/rem_scalar_matrix1x4_u64", "u64", 5, "u64", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x4_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 12])) }),
    ("C04/add_matrix1x4_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C04_add_matrix1x4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_add_matrix1x4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C04/sub_matrix1x4_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C04_sub_matrix1x4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_sub_matrix1x4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C04/mul_scalar_matrix4x2_u64", "u64", 9, "u64", 24, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 24])) }),
    ("C04/div_scalar_matrix4x2_u64", "u64", 9, "u64", 24, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 24])) }),
    ("C04/rem_scalar_matrix4x2_u64", "u64", 9, "u64", 24, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x2_u64(&*(i as *const [u64; 9]), &mut *(o as *mut [u64; 24])) }),
    ("C04/add_matrix4x2_u64", "u64", 16, "u64", 48, "all", |i, o| unsafe { l_C04_add_matrix4x2_u64(&*(i as *const [u64; 16]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C04_add_matrix4x2_u64(&*(i as *const [u64; 16]), &mut *(o as *mut [u64; 48])) }),
    ("C04/sub_matrix4x2_u64", "u64", 16, "u64", 48, "all", |i, o| unsafe { l_C04_sub_matrix4x2_u64(&*(i as *const [u64; 16]), &mut *(o as *mut [u64; 48])) }, |i, o| unsafe { r_C04_sub_matrix4x2_u64(&*(i as *const [u64; 16]), &mut *(o as *mut [u64; 48])) }),
    ("C10/mul_scalar_quaternion_u64", "u64", 5, "u64", 20, "all", |i, o| unsafe { l_C10_mul_scalar_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 20])) }, |i, o| unsafe { r_C10_mul_scalar_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 20])) }),
    ("C10/div_scalar_quaternion_u64", "u64", 5, "u64", 20, "uf", |i, o| unsafe { l_C10_div_scalar_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 20])) }, |i, o| unsafe { r_C10_div_scalar_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 20])) }),
    ("C10/rem_scalar_quaternion_u64", "u64", 5, "u64", 20, "uf", |i, o| unsafe { l_C10_rem_scalar_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 20])) }, |i, o| unsafe { r_C10_rem_scalar_quaternion_u64(&*(i as *const [u64; 5]), &mut *(o as *mut [u64; 20])) }),
    ("C10/add_quaternion_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C10_add_quaternion_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C10_add_quaternion_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C10/sub_quaternion_u64", "u64", 8, "u64", 24, "all", |i, o| unsafe { l_C10_sub_quaternion_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }, |i, o| unsafe { r_C10_sub_quaternion_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u64; 24])) }),
    ("C15/mul_scalar_complex_u64", "u64", 3, "u64", 10, "all", |i, o| unsafe { l_C15_mul_scalar_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 10])) }, |i, o| unsafe { r_C15_mul_scalar_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 10])) }),
    ("C15/div_scalar_complex_u64", "u64", 3, "u64", 10, "uf", |i, o| unsafe { l_C15_div_scalar_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 10])) }, |i, o| unsafe { r_C15_div_scalar_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 10])) }),
    ("C15/rem_scalar_complex_u64", "u64", 3, "u64", 10, "uf", |i, o| unsafe { l_C15_rem_scalar_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 10])) }, |i, o| unsafe { r_C15_rem_scalar_complex_u64(&*(i as *const [u64; 3]), &mut *(o as *mut [u64; 10])) }),
    ("C15/add_complex_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C15_add_complex_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C15_add_complex_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C15/sub_complex_u64", "u64", 4, "u64", 12, "all", |i, o| unsafe { l_C15_sub_complex_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }, |i, o| unsafe { r_C15_sub_complex_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u64; 12])) }),
    ("C01/mul_scalar_vector1_f32", "f32", 2, "f32", 3, "all", |i, o| unsafe { l_C01_mul_scalar_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C01_mul_scalar_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C01/div_scalar_vector1_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C01_div_scalar_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C01_div_scalar_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C01/rem_scalar_vector1_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C01_rem_scalar_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C01/add_vector1_f32", "f32", 2, "f32", 6, "all", |i, o| unsafe { l_C01_add_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_add_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }),
    ("C01/sub_vector1_f32", "f32", 2, "f32", 6, "all", |i, o| unsafe { l_C01_sub_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_sub_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }),
    ("C01/mul_scalar_vector2_f32", "f32", 3, "f32", 6, "all", |i, o| unsafe { l_C01_mul_scalar_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_mul_scalar_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }),
    ("C01/div_scalar_vector2_f32", "f32", 3, "f32", 6, "uf", |i, o| unsafe { l_C01_div_scalar_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_div_scalar_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }),
    ("C01/rem_scalar_vector2_f32", "f32", 3, "f32", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_rem_scalar_vector2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }),
    ("C01/add_vector2_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C01_add_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_add_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C01/sub_vector2_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C01_sub_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_sub_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C01/mul_scalar_vector3_f32", "f32", 4, "f32", 9, "all", |i, o| unsafe { l_C01_mul_scalar_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }, |i, o| unsafe { r_C01_mul_scalar_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }),
    ("C01/div_scalar_vector3_f32", "f32", 4, "f32", 9, "uf", |i, o| unsafe { l_C01_div_scalar_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }, |i, o| unsafe { r_C01_div_scalar_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }),
    ("C01/rem_scalar_vector3_f32", "f32", 4, "f32", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }, |i, o| unsafe { r_C01_rem_scalar_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }),
    ("C01/add_vector3_f32", "f32", 6, "f32", 18, "all", |i, o| unsafe { l_C01_add_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C01_add_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }),
    ("C01/sub_vector3_f32", "f32", 6, "f32", 18, "all", |i, o| unsafe { l_C01_sub_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C01_sub_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }),
    ("C01/mul_scalar_vector4_f32", "f32", 5, "f32", 12, "all", |i, o| unsafe { l_C01_mul_scalar_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_mul_scalar_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C01/div_scalar_vector4_f32", "f32", 5, "f32", 12, "uf", |i, o| unsafe { l_C01_div_scalar_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_div_scalar_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C01/rem_scalar_vector4_f32", "f32", 5, "f32", 12, "uf", |i, o| unsafe { l_C01_rem_scalar_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_rem_scalar_vector4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C01/add_vector4_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C01_add_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C01_add_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C01/sub_vector4_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C01_sub_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C01_sub_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C01/mul_scalar_point1_f32", "f32", 2, "f32", 3, "all", |i, o| unsafe { l_C01_mul_scalar_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C01_mul_scalar_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C01/div_scalar_point1_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C01_div_scalar_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C01_div_scalar_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C01/rem_scalar_point1_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C01_rem_scalar_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C01/add_point1_f32", "f32", 2, "f32", 6, "all", |i, o| unsafe { l_C01_add_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_add_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }),
    ("C01/sub_point1_f32", "f32", 2, "f32", 6, "all", |i, o| unsafe { l_C01_sub_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_sub_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }),
    ("C01/mul_scalar_point2_f32", "f32", 3, "f32", 6, "all", |i, o| unsafe { l_C01_mul_scalar_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_mul_scalar_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }),
    ("C01/div_scalar_point2_f32", "f32", 3, "f32", 6, "uf", |i, o| unsafe { l_C01_div_scalar_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_div_scalar_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }),
    ("C01/rem_scalar_point2_f32", "f32", 3, "f32", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C01_rem_scalar_point2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 6])) }),
    ("C01/add_point2_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C01_add_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_add_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C01/sub_point2_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C01_sub_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C01_sub_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C01/mul_scalar_point3_f32", "f32", 4, "f32", 9, "all", |i, o| unsafe { l_C01_mul_scalar_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }, |i, o| unsafe { r_C01_mul_scalar_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }),
    ("C01/div_scalar_point3_f32", "f32", 4, "f32", 9, "uf", |i, o| unsafe { l_C01_div_scalar_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }, |i, o| unsafe { r_C01_div_scalar_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }),
    ("C01/rem_scalar_point3_f32", "f32", 4, "f32", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }, |i, o| unsafe { r_C01_rem_scalar_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 9])) }),
    ("C01/add_point3_f32", "f32", 6, "f32", 18, "all", |i, o| unsafe { l_C01_add_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C01_add_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }),
    ("C01/sub_point3_f32", "f32", 6, "f32", 18, "all", |i, o| unsafe { l_C01_sub_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C01_sub_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 18])) }),
    ("C04/mul_scalar_matrix1x1_f32", "f32", 2, "f32", 3, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C04/div_scalar_matrix1x1_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C04/rem_scalar_matrix1x1_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C04/add_matrix1x1_f32", "f32", 2, "f32", 6, "all", |i, o| unsafe { l_C04_add_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C04_add_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }),
    ("C04/sub_matrix1x1_f32", "f32", 2, "f32", 6, "all", |i, o| unsafe { l_C04_sub_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }, |i, o| unsafe { r_C04_sub_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 6])) }),
    ("C04/mul_scalar_matrix2x2_f32", "f32", 5, "f32", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C04/div_scalar_matrix2x2_f32", "f32", 5, "f32", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C04/rem_scalar_matrix2x2_f32", "f32", 5, "f32", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C04/add_matrix2x2_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C04_add_matrix2x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_add_matrix2x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C04/sub_matrix2x2_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C04_sub_matrix2x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_sub_matrix2x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C04/mul_scalar_matrix3x3_f32", "f32", 10, "f32", 27, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 27])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 27])) }),
    ("C04/div_scalar_matrix3x3_f32", "f32", 10, "f32", 27, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 27])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 27])) }),
    ("C04/rem_scalar_matrix3x3_f32", "f32", 10, "f32", 27, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 27])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x3_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 27])) }),
    ("C04/add_matrix3x3_f32", "f32", 18, "f32", 54, "all", |i, o| unsafe { l_C04_add_matrix3x3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 54])) }, |i, o| unsafe { r_C04_add_matrix3x3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 54])) }),
    ("C04/sub_matrix3x3_f32", "f32", 18, "f32", 54, "all", |i, o| unsafe { l_C04_sub_matrix3x3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 54])) }, |i, o| unsafe { r_C04_sub_matrix3x3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 54])) }),
    ("C04/mul_scalar_matrix4x4_f32", "f32", 17, "f32", 48, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 48])) }),
    ("C04/div_scalar_matrix4x4_f32", "f32", 17, "f32", 48, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 48])) }),
    ("C04/rem_scalar_matrix4x4_f32", "f32", 17, "f32", 48, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x4_f32(&*(i as *const [f32; 17]), &mut *(o as *mut [f32; 48])) }),
    ("C04/add_matrix4x4_f32", "f32", 32, "f32", 96, "all", |i, o| unsafe { l_C04_add_matrix4x4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 96])) }, |i, o| unsafe { r_C04_add_matrix4x4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 96])) }),
    ("C04/sub_matrix4x4_f32", "f32", 32, "f32", 96, "all", |i, o| unsafe { l_C04_sub_matrix4x4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 96])) }, |i, o| unsafe { r_C04_sub_matrix4x4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 96])) }),
    ("C04/mul_scalar_matrix2x3_f32", "f32", 7, "f32", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }),
    ("C04/div_scalar_matrix2x3_f32", "f32", 7, "f32", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }),
    ("C04/rem_scalar_matrix2x3_f32", "f32", 7, "f32", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }),
    ("C04/add_matrix2x3_f32", "f32", 12, "f32", 36, "all", |i, o| unsafe { l_C04_add_matrix2x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_add_matrix2x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }),
    ("C04/sub_matrix2x3_f32", "f32", 12, "f32", 36, "all", |i, o| unsafe { l_C04_sub_matrix2x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_sub_matrix2x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }),
    ("C04/mul_scalar_matrix3x2_f32", "f32", 7, "f32", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }),
    ("C04/div_scalar_matrix3x2_f32", "f32", 7, "f32", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }),
    ("C04/rem_scalar_matrix3x2_f32", "f32", 7, "f32", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x2_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [f32; 18])) }),
    ("C04/add_matrix3x2_f32", "f32", 12, "f32", 36, "all", |i, o| unsafe { l_C04_add_matrix3x2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_add_matrix3x2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }),
    ("C04/sub_matrix3x2_f32", "f32", 12, "f32", 36, "all", |i, o| unsafe { l_C04_sub_matrix3x2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_sub_matrix3x2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 36])) }),
    ("C04/mul_scalar_matrix4x3_f32", "f32", 13, "f32", 36, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 36])) }),
    ("C04/div_scalar_matrix4x3_f32", "f32", 13, "f32", 36, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 36])) }),
    ("C04/rem_scalar_matrix4x3_f32", "f32", 13, "f32", 36, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 36])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x3_f32(&*(i as *const [f32; 13]), &mut *(o as *mut [f32; 36])) }),
    ("C04/add_matrix4x3_f32", "f32", 24, "f32", 72, "all", |i, o| unsafe { l_C04_add_matrix4x3_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [f32; 72])) }, |i, o| unsafe { r_C04_add_matrix4x3_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [f32; 72])) }),
    ("C04/sub_matrix4x3_f32", "f32", 24, "f32", 72, "all", |i, o| unsafe { l_C04_sub_matrix4x3_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [f32; 72])) }, |i, o| unsafe { r_C04_sub_matrix4x3_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [f32; 72])) }),
    ("C04/mul_scalar_matrix1x4_f32", "f32", 5, "f32", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C04/div_scalar_matrix1x4_f32", "f32", 5, "f32", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C04/rem_scalar_matrix1x4_f32", "f32", 5, "f32", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x4_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 12])) }),
    ("C04/add_matrix1x4_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C04_add_matrix1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_add_matrix1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C04/sub_matrix1x4_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C04_sub_matrix1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_sub_matrix1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C04/mul_scalar_matrix4x2_f32", "f32", 9, "f32", 24, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 24])) }),
    ("C04/div_scalar_matrix4x2_f32", "f32", 9, "f32", 24, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 24])) }),
    ("C04/rem_scalar_matrix4x2_f32", "f32", 9, "f32", 24, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x2_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 24])) }),
    ("C04/add_matrix4x2_f32", "f32", 16, "f32", 48, "all", |i, o| unsafe { l_C04_add_matrix4x2_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C04_add_matrix4x2_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 48])) }),
    ("C04/sub_matrix4x2_f32", "f32", 16, "f32", 48, "all", |i, o| unsafe { l_C04_sub_matrix4x2_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 48])) }, |i, o| unsafe { r_C04_sub_matrix4x2_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 48])) }),
    ("C10/mul_scalar_quaternion_f32", "f32", 5, "f32", 20, "all", |i, o| unsafe { l_C10_mul_scalar_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 20])) }, |i, o| unsafe { r_C10_mul_scalar_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 20])) }),
    ("C10/div_scalar_quaternion_f32", "f32", 5, "f32", 20, "uf", |i, o| unsafe { l_C10_div_scalar_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 20])) }, |i, o| unsafe { r_C10_div_scalar_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 20])) }),
    ("C10/rem_scalar_quaternion_f32", "f32", 5, "f32", 20, "uf", |i, o| unsafe { l_C10_rem_scalar_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 20])) }, |i, o| unsafe { r_C10_rem_scalar_quaternion_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 20])) }),
    ("C10/add_quaternion_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C10_add_quaternion_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C10_add_quaternion_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C10/sub_quaternion_f32", "f32", 8, "f32", 24, "all", |i, o| unsafe { l_C10_sub_quaternion_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C10_sub_quaternion_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 24])) }),
    ("C15/mul_scalar_complex_f32", "f32", 3, "f32", 10, "all", |i, o| unsafe { l_C15_mul_scalar_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 10])) }, |i, o| unsafe { r_C15_mul_scalar_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 10])) }),
    ("C15/div_scalar_complex_f32", "f32", 3, "f32", 10, "uf", |i, o| unsafe { l_C15_div_scalar_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 10])) }, |i, o| unsafe { r_C15_div_scalar_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 10])) }),
    ("C15/rem_scalar_complex_f32", "f32", 3, "f32", 10, "uf", |i, o| unsafe { l_C15_rem_scalar_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 10])) }, |i, o| unsafe { r_C15_rem_scalar_complex_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 10])) }),
    ("C15/add_complex_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C15_add_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C15_add_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C15/sub_complex_f32", "f32", 4, "f32", 12, "all", |i, o| unsafe { l_C15_sub_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C15_sub_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C15/div_complex_f32", "f32", 4, "f32", 12, "uf", |i, o| unsafe { l_C15_div_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C15_div_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C01/mul_scalar_vector1_f64", "f64", 2, "f64", 3, "all", |i, o| unsafe { l_C01_mul_scalar_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C01_mul_scalar_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C01/div_scalar_vector1_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C01_div_scalar_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C01_div_scalar_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C01/rem_scalar_vector1_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C01_rem_scalar_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C01/add_vector1_f64", "f64", 2, "f64", 6, "all", |i, o| unsafe { l_C01_add_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_add_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }),
    ("C01/sub_vector1_f64", "f64", 2, "f64", 6, "all", |i, o| unsafe { l_C01_sub_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_sub_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }),
    ("C01/mul_scalar_vector2_f64", "f64", 3, "f64", 6, "all", |i, o| unsafe { l_C01_mul_scalar_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_mul_scalar_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }),
    ("C01/div_scalar_vector2_f64", "f64", 3, "f64", 6, "uf", |i, o| unsafe { l_C01_div_scalar_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_div_scalar_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }),
    ("C01/rem_scalar_vector2_f64", "f64", 3, "f64", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_rem_scalar_vector2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }),
    ("C01/add_vector2_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C01_add_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_add_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C01/sub_vector2_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C01_sub_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_sub_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C01/mul_scalar_vector3_f64", "f64", 4, "f64", 9, "all", |i, o| unsafe { l_C01_mul_scalar_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }, |i, o| unsafe { r_C01_mul_scalar_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }),
    ("C01/div_scalar_vector3_f64", "f64", 4, "f64", 9, "uf", |i, o| unsafe { l_C01_div_scalar_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }, |i, o| unsafe { r_C01_div_scalar_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }),
    ("C01/rem_scalar_vector3_f64", "f64", 4, "f64", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }, |i, o| unsafe { r_C01_rem_scalar_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }),
    ("C01/add_vector3_f64", "f64", 6, "f64", 18, "all", |i, o| unsafe { l_C01_add_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C01_add_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }),
    ("C01/sub_vector3_f64", "f64", 6, "f64", 18, "all", |i, o| unsafe { l_C01_sub_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C01_sub_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }),
    ("C01/mul_scalar_vector4_f64", "f64", 5, "f64", 12, "all", |i, o| unsafe { l_C01_mul_scalar_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_mul_scalar_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C01/div_scalar_vector4_f64", "f64", 5, "f64", 12, "uf", |i, o| unsafe { l_C01_div_scalar_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_div_scalar_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C01/rem_scalar_vector4_f64", "f64", 5, "f64", 12, "uf", |i, o| unsafe { l_C01_rem_scalar_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_rem_scalar_vector4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C01/add_vector4_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C01_add_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C01_add_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C01/sub_vector4_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C01_sub_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C01_sub_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C01/mul_scalar_point1_f64", "f64", 2, "f64", 3, "all", |i, o| unsafe { l_C01_mul_scalar_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C01_mul_scalar_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C01/div_scalar_point1_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C01_div_scalar_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C01_div_scalar_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C01/rem_scalar_point1_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C01_rem_scalar_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C01_rem_scalar_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C01/add_point1_f64", "f64", 2, "f64", 6, "all", |i, o| unsafe { l_C01_add_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_add_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }),
    ("C01/sub_point1_f64", "f64", 2, "f64", 6, "all", |i, o| unsafe { l_C01_sub_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_sub_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }),
    ("C01/mul_scalar_point2_f64", "f64", 3, "f64", 6, "all", |i, o| unsafe { l_C01_mul_scalar_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_mul_scalar_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }),
    ("C01/div_scalar_point2_f64", "f64", 3, "f64", 6, "uf", |i, o| unsafe { l_C01_div_scalar_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_div_scalar_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }),
    ("C01/rem_scalar_point2_f64", "f64", 3, "f64", 6, "uf", |i, o| unsafe { l_C01_rem_scalar_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C01_rem_scalar_point2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 6])) }),
    ("C01/add_point2_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C01_add_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_add_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C01/sub_point2_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C01_sub_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C01_sub_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C01/mul_scalar_point3_f64", "f64", 4, "f64", 9, "all", |i, o| unsafe { l_C01_mul_scalar_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }, |i, o| unsafe { r_C01_mul_scalar_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }),
    ("C01/div_scalar_point3_f64", "f64", 4, "f64", 9, "uf", |i, o| unsafe { l_C01_div_scalar_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }, |i, o| unsafe { r_C01_div_scalar_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }),
    ("C01/rem_scalar_point3_f64", "f64", 4, "f64", 9, "uf", |i, o| unsafe { l_C01_rem_scalar_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }, |i, o| unsafe { r_C01_rem_scalar_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 9])) }),
    ("C01/add_point3_f64", "f64", 6, "f64", 18, "all", |i, o| unsafe { l_C01_add_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C01_add_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }),
    ("C01/sub_point3_f64", "f64", 6, "f64", 18, "all", |i, o| unsafe { l_C01_sub_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C01_sub_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 18])) }),
    ("C04/mul_scalar_matrix1x1_f64", "f64", 2, "f64", 3, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C04/div_scalar_matrix1x1_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C04/rem_scalar_matrix1x1_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C04/add_matrix1x1_f64", "f64", 2, "f64", 6, "all", |i, o| unsafe { l_C04_add_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C04_add_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }),
    ("C04/sub_matrix1x1_f64", "f64", 2, "f64", 6, "all", |i, o| unsafe { l_C04_sub_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }, |i, o| unsafe { r_C04_sub_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 6])) }),
    ("C04/mul_scalar_matrix2x2_f64", "f64", 5, "f64", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C04/div_scalar_matrix2x2_f64", "f64", 5, "f64", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C04/rem_scalar_matrix2x2_f64", "f64", 5, "f64", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C04/add_matrix2x2_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C04_add_matrix2x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_add_matrix2x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C04/sub_matrix2x2_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C04_sub_matrix2x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_sub_matrix2x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C04/mul_scalar_matrix3x3_f64", "f64", 10, "f64", 27, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 27])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 27])) }),
    ("C04/div_scalar_matrix3x3_f64", "f64", 10, "f64", 27, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 27])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 27])) }),
    ("C04/rem_scalar_matrix3x3_f64", "f64", 10, "f64", 27, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 27])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x3_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 27])) }),
    ("C04/add_matrix3x3_f64", "f64", 18, "f64", 54, "all", |i, o| unsafe { l_C04_add_matrix3x3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 54])) }, |i, o| unsafe { r_C04_add_matrix3x3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 54])) }),
    ("C04/sub_matrix3x3_f64", "f64", 18, "f64", 54, "all", |i, o| unsafe { l_C04_sub_matrix3x3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 54])) }, |i, o| unsafe { r_C04_sub_matrix3x3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 54])) }),
    ("C04/mul_scalar_matrix4x4_f64", "f64", 17, "f64", 48, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 48])) }),
    ("C04/div_scalar_matrix4x4_f64", "f64", 17, "f64", 48, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 48])) }),
    ("C04/rem_scalar_matrix4x4_f64", "f64", 17, "f64", 48, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x4_f64(&*(i as *const [f64; 17]), &mut *(o as *mut [f64; 48])) }),
    ("C04/add_matrix4x4_f64", "f64", 32, "f64", 96, "all", |i, o| unsafe { l_C04_add_matrix4x4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 96])) }, |i, o| unsafe { r_C04_add_matrix4x4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 96])) }),
    ("C04/sub_matrix4x4_f64", "f64", 32, "f64", 96, "all", |i, o| unsafe { l_C04_sub_matrix4x4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 96])) }, |i, o| unsafe { r_C04_sub_matrix4x4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 96])) }),
    ("C04/mul_scalar_matrix2x3_f64", "f64", 7, "f64", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }),
    ("C04/div_scalar_matrix2x3_f64", "f64", 7, "f64", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }),
    ("C04/rem_scalar_matrix2x3_f64", "f64", 7, "f64", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix2x3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }),
    ("C04/add_matrix2x3_f64", "f64", 12, "f64", 36, "all", |i, o| unsafe { l_C04_add_matrix2x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_add_matrix2x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }),
    ("C04/sub_matrix2x3_f64", "f64", 12, "f64", 36, "all", |i, o| unsafe { l_C04_sub_matrix2x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_sub_matrix2x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }),
    ("C04/mul_scalar_matrix3x2_f64", "f64", 7, "f64", 18, "all", |i, o| unsafe { l_C04_mul_scalar_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C04_mul_scalar_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }),
    ("C04/div_scalar_matrix3x2_f64", "f64", 7, "f64", 18, "uf", |i, o| unsafe { l_C04_div_scalar_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C04_div_scalar_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }),
    ("C04/rem_scalar_matrix3x2_f64", "f64", 7, "f64", 18, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }, |i, o| unsafe { r_C04_rem_scalar_matrix3x2_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [f64; 18])) }),
    ("C04/add_matrix3x2_f64", "f64", 12, "f64", 36, "all", |i, o| unsafe { l_C04_add_matrix3x2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_add_matrix3x2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }),
    ("C04/sub_matrix3x2_f64", "f64", 12, "f64", 36, "all", |i, o| unsafe { l_C04_sub_matrix3x2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_sub_matrix3x2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 36])) }),
    ("C04/mul_scalar_matrix4x3_f64", "f64", 13, "f64", 36, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 36])) }),
    ("C04/div_scalar_matrix4x3_f64", "f64", 13, "f64", 36, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 36])) }),
    ("C04/rem_scalar_matrix4x3_f64", "f64", 13, "f64", 36, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 36])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x3_f64(&*(i as *const [f64; 13]), &mut *(o as *mut [f64; 36])) }),
    ("C04/add_matrix4x3_f64", "f64", 24, "f64", 72, "all", |i, o| unsafe { l_C04_add_matrix4x3_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [f64; 72])) }, |i, o| unsafe { r_C04_add_matrix4x3_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [f64; 72])) }),
    ("C04/sub_matrix4x3_f64", "f64", 24, "f64", 72, "all", |i, o| unsafe { l_C04_sub_matrix4x3_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [f64; 72])) }, |i, o| unsafe { r_C04_sub_matrix4x3_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [f64; 72])) }),
    ("C04/mul_scalar_matrix1x4_f64", "f64", 5, "f64", 12, "all", |i, o| unsafe { l_C04_mul_scalar_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_mul_scalar_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C04/div_scalar_matrix1x4_f64", "f64", 5, "f64", 12, "uf", |i, o| unsafe { l_C04_div_scalar_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_div_scalar_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C04/rem_scalar_matrix1x4_f64", "f64", 5, "f64", 12, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_rem_scalar_matrix1x4_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 12])) }),
    ("C04/add_matrix1x4_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C04_add_matrix1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_add_matrix1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C04/sub_matrix1x4_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C04_sub_matrix1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_sub_matrix1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C04/mul_scalar_matrix4x2_f64", "f64", 9, "f64", 24, "all", |i, o| unsafe { l_C04_mul_scalar_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_mul_scalar_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 24])) }),
    ("C04/div_scalar_matrix4x2_f64", "f64", 9, "f64", 24, "uf", |i, o| unsafe { l_C04_div_scalar_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_div_scalar_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 24])) }),
    ("C04/rem_scalar_matrix4x2_f64", "f64", 9, "f64", 24, "uf", |i, o| unsafe { l_C04_rem_scalar_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_rem_scalar_matrix4x2_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 24])) }),
    ("C04/add_matrix4x2_f64", "f64", 16, "f64", 48, "all", |i, o| unsafe { l_C04_add_matrix4x2_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C04_add_matrix4x2_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 48])) }),
    ("C04/sub_matrix4x2_f64", "f64", 16, "f64", 48, "all", |i, o| unsafe { l_C04_sub_matrix4x2_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 48])) }, |i, o| unsafe { r_C04_sub_matrix4x2_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 48])) }),
    ("C10/mul_scalar_quaternion_f64", "f64", 5, "f64", 20, "all", |i, o| unsafe { l_C10_mul_scalar_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 20])) }, |i, o| unsafe { r_C10_mul_scalar_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 20])) }),
    ("C10/div_scalar_quaternion_f64", "f64", 5, "f64", 20, "uf", |i, o| unsafe { l_C10_div_scalar_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 20])) }, |i, o| unsafe { r_C10_div_scalar_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 20])) }),
    ("C10/rem_scalar_quaternion_f64", "f64", 5, "f64", 20, "uf", |i, o| unsafe { l_C10_rem_scalar_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 20])) }, |i, o| unsafe { r_C10_rem_scalar_quaternion_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 20])) }),
    ("C10/add_quaternion_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C10_add_quaternion_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C10_add_quaternion_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C10/sub_quaternion_f64", "f64", 8, "f64", 24, "all", |i, o| unsafe { l_C10_sub_quaternion_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C10_sub_quaternion_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 24])) }),
    ("C15/mul_scalar_complex_f64", "f64", 3, "f64", 10, "all", |i, o| unsafe { l_C15_mul_scalar_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 10])) }, |i, o| unsafe { r_C15_mul_scalar_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 10])) }),
    ("C15/div_scalar_complex_f64", "f64", 3, "f64", 10, "uf", |i, o| unsafe { l_C15_div_scalar_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 10])) }, |i, o| unsafe { r_C15_div_scalar_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 10])) }),
    ("C15/rem_scalar_complex_f64", "f64", 3, "f64", 10, "uf", |i, o| unsafe { l_C15_rem_scalar_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 10])) }, |i, o| unsafe { r_C15_rem_scalar_complex_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 10])) }),
    ("C15/add_complex_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C15_add_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C15_add_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C15/sub_complex_f64", "f64", 4, "f64", 12, "all", |i, o| unsafe { l_C15_sub_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C15_sub_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C15/div_complex_f64", "f64", 4, "f64", 12, "uf", |i, o| unsafe { l_C15_div_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C15_div_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C02/dot_vector1_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_vector1_u8", "u8", 1, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_vector1_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_vector1_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_vector1_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_point1_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_point1_u8", "u8", 1, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_point1_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_point1_u8(&*(i as *const [u8; 1]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_point1_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_vector2_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_vector2_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_vector2_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_vector2_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_vector2_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_point2_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_point2_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_point2_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_point2_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_point2_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_vector3_u8", "u8", 6, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_vector3_u8", "u8", 3, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_vector3_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_vector3_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_vector3_u8", "u8", 6, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_point3_u8", "u8", 6, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_point3_u8", "u8", 3, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_point3_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_point3_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_point3_u8", "u8", 6, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_vector4_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_vector4_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_vector4_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_vector4_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_vector4_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_point4_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_point4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_point4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_point4_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_point4_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_point4_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_point4_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_point4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_point4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_vector5_u8", "u8", 10, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_vector5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_vector5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_vector5_u8", "u8", 5, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_vector5_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_vector5_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_vector5_u8", "u8", 10, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_vector5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_vector5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_point5_u8", "u8", 10, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_point5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_point5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_point5_u8", "u8", 5, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_point5_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_point5_u8(&*(i as *const [u8; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_point5_u8", "u8", 10, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_point5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_point5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_vector8_u8", "u8", 16, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_vector8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_vector8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_vector8_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_vector8_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_vector8_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_vector8_u8", "u8", 16, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_vector8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_vector8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }),
    ("C02/dot_point8_u8", "u8", 16, "u8", 2, "ring", |i, o| unsafe { l_C02_dot_point8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_dot_point8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }),
    ("C02/squares_point8_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C02_squares_point8_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_squares_point8_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C02/distance_point8_u8", "u8", 16, "u8", 2, "ring", |i, o| unsafe { l_C02_distance_point8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C02_distance_point8_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 2])) }),
    ("C03/cross_u8", "u8", 9, "u8", 3, "ring", |i, o| unsafe { l_C03_cross_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C03_cross_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 3])) }),
    ("C03/triple_u8", "u8", 9, "u8", 3, "ring", |i, o| unsafe { l_C03_triple_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C03_triple_u8(&*(i as *const [u8; 9]), &mut *(o as *mut [u8; 3])) }),
    ("C04/product_1_1_1_u8", "u8", 2, "u8", 5, "ring", |i, o| unsafe { l_C04_product_1_1_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C04_product_1_1_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }),
    ("C04/apply_1x1_u8", "u8", 2, "u8", 4, "ring", |i, o| unsafe { l_C04_apply_1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C04_apply_1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C04/product_2_2_2_u8", "u8", 8, "u8", 20, "ring", |i, o| unsafe { l_C04_product_2_2_2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 20])) }, |i, o| unsafe { r_C04_product_2_2_2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 20])) }),
    ("C04/apply_2x2_u8", "u8", 6, "u8", 8, "ring", |i, o| unsafe { l_C04_apply_2x2_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 8])) }, |i, o| unsafe { r_C04_apply_2x2_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 8])) }),
    ("C04/product_3_3_3_u8", "u8", 18, "u8", 45, "ring", |i, o| unsafe { l_C04_product_3_3_3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 45])) }, |i, o| unsafe { r_C04_product_3_3_3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 45])) }),
    ("C04/apply_3x3_u8", "u8", 12, "u8", 12, "ring", |i, o| unsafe { l_C04_apply_3x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C04_apply_3x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 12])) }),
    ("C04/product_4_4_4_u8", "u8", 32, "u8", 80, "ring", |i, o| unsafe { l_C04_product_4_4_4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 80])) }, |i, o| unsafe { r_C04_product_4_4_4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 80])) }),
    ("C04/apply_4x4_u8", "u8", 20, "u8", 16, "ring", |i, o| unsafe { l_C04_apply_4x4_u8(&*(i as *const [u8; 20]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C04_apply_4x4_u8(&*(i as *const [u8; 20]), &mut *(o as *mut [u8; 16])) }),
    ("C04/product_2_3_2_u8", "u8", 12, "u8", 20, "ring", |i, o| unsafe { l_C04_product_2_3_2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 20])) }, |i, o| unsafe { r_C04_product_2_3_2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 20])) }),
    ("C04/product_3_2_3_u8", "u8", 12, "u8", 45, "ring", |i, o| unsafe { l_C04_product_3_2_3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 45])) }, |i, o| unsafe { r_C04_product_3_2_3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 45])) }),
    ("C04/product_1_4_1_u8", "u8", 8, "u8", 5, "ring", |i, o| unsafe { l_C04_product_1_4_1_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C04_product_1_4_1_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 5])) }),
    ("C04/apply_1x4_u8", "u8", 8, "u8", 4, "ring", |i, o| unsafe { l_C04_apply_1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C04_apply_1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C04/product_4_1_4_u8", "u8", 8, "u8", 80, "ring", |i, o| unsafe { l_C04_product_4_1_4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 80])) }, |i, o| unsafe { r_C04_product_4_1_4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 80])) }),
    ("C04/product_2_4_3_u8", "u8", 20, "u8", 30, "ring", |i, o| unsafe { l_C04_product_2_4_3_u8(&*(i as *const [u8; 20]), &mut *(o as *mut [u8; 30])) }, |i, o| unsafe { r_C04_product_2_4_3_u8(&*(i as *const [u8; 20]), &mut *(o as *mut [u8; 30])) }),
    ("C04/product_4_3_2_u8", "u8", 18, "u8", 40, "ring", |i, o| unsafe { l_C04_product_4_3_2_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 40])) }, |i, o| unsafe { r_C04_product_4_3_2_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 40])) }),
    ("C04/product_3_5_2_u8", "u8", 25, "u8", 24, "ring", |i, o| unsafe { l_C04_product_3_5_2_u8(&*(i as *const [u8; 25]), &mut *(o as *mut [u8; 24])) }, |i, o| unsafe { r_C04_product_3_5_2_u8(&*(i as *const [u8; 25]), &mut *(o as *mut [u8; 24])) }),
    ("C04/product_2_9_2_u8", "u8", 36, "u8", 16, "ring", |i, o| unsafe { l_C04_product_2_9_2_u8(&*(i as *const [u8; 36]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C04_product_2_9_2_u8(&*(i as *const [u8; 36]), &mut *(o as *mut [u8; 16])) }),
    ("C04/tr_dot_1_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C04_tr_dot_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_tr_dot_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C04/dot_1_u8", "u8", 2, "u8", 2, "ring", |i, o| unsafe { l_C04_dot_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_dot_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C04/tr_dot_2_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C04_tr_dot_2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_tr_dot_2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C04/dot_2_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C04_dot_2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_dot_2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C04/tr_dot_3_u8", "u8", 18, "u8", 2, "ring", |i, o| unsafe { l_C04_tr_dot_3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_tr_dot_3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 2])) }),
    ("C04/dot_3_u8", "u8", 18, "u8", 2, "ring", |i, o| unsafe { l_C04_dot_3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_dot_3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 2])) }),
    ("C04/tr_dot_4_u8", "u8", 32, "u8", 2, "ring", |i, o| unsafe { l_C04_tr_dot_4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_tr_dot_4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 2])) }),
    ("C04/dot_4_u8", "u8", 32, "u8", 2, "ring", |i, o| unsafe { l_C04_dot_4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C04_dot_4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 2])) }),
    ("C10/product_u8", "u8", 8, "u8", 16, "ring", |i, o| unsafe { l_C10_product_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C10_product_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 16])) }),
    ("C10/squares_u8", "u8", 8, "u8", 4, "ring", |i, o| unsafe { l_C10_squares_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C10_squares_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C10/dot_u8", "u8", 8, "u8", 2, "ring", |i, o| unsafe { l_C10_dot_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C10_dot_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C15/product_u8", "u8", 4, "u8", 12, "ring", |i, o| unsafe { l_C15_product_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }, |i, o| unsafe { r_C15_product_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 12])) }),
    ("C15/squared_u8", "u8", 4, "u8", 4, "ring", |i, o| unsafe { l_C15_squared_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C15_squared_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C15/cubed_u8", "u8", 4, "u8", 4, "ring", |i, o| unsafe { l_C15_cubed_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C15_cubed_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C15/squares_u8", "u8", 4, "u8", 3, "ring", |i, o| unsafe { l_C15_squares_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C15_squares_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C15/scale_u8", "u8", 4, "u8", 2, "ring", |i, o| unsafe { l_C15_scale_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C15_scale_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C15/unscale_u8", "u8", 3, "u8", 2, "uf", |i, o| unsafe { l_C15_unscale_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C15_unscale_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C01/from_homogeneous_1_u8", "u8", 2, "u8", 2, "uf", |i, o| unsafe { l_C01_from_homogeneous_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C01_from_homogeneous_1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 2])) }),
    ("C01/from_homogeneous_2_u8", "u8", 3, "u8", 3, "uf", |i, o| unsafe { l_C01_from_homogeneous_2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C01_from_homogeneous_2_u8(&*(i as *const [u8; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C01/from_homogeneous_3_u8", "u8", 4, "u8", 4, "uf", |i, o| unsafe { l_C01_from_homogeneous_3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C01_from_homogeneous_3_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C02/dot_vector1_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_vector1_i32", "i32", 1, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_vector1_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_vector1_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_vector1_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_point1_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_point1_i32", "i32", 1, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_point1_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_point1_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_point1_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_vector2_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_vector2_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_vector2_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_vector2_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_vector2_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_point2_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_point2_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_point2_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_point2_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_point2_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_vector3_i32", "i32", 6, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_vector3_i32", "i32", 3, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_vector3_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_vector3_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_vector3_i32", "i32", 6, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_point3_i32", "i32", 6, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_point3_i32", "i32", 3, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_point3_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_point3_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_point3_i32", "i32", 6, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_vector4_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_vector4_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_vector4_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_vector4_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_vector4_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_point4_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_point4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_point4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_point4_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_point4_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_point4_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_point4_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_point4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_point4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_vector5_i32", "i32", 10, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_vector5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_vector5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_vector5_i32", "i32", 5, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_vector5_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_vector5_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_vector5_i32", "i32", 10, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_vector5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_vector5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_point5_i32", "i32", 10, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_point5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_point5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_point5_i32", "i32", 5, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_point5_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_point5_i32(&*(i as *const [i32; 5]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_point5_i32", "i32", 10, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_point5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_point5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_vector8_i32", "i32", 16, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_vector8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_vector8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_vector8_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_vector8_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_vector8_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_vector8_i32", "i32", 16, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_vector8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_vector8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }),
    ("C02/dot_point8_i32", "i32", 16, "i32", 2, "ring", |i, o| unsafe { l_C02_dot_point8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_dot_point8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }),
    ("C02/squares_point8_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C02_squares_point8_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_squares_point8_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C02/distance_point8_i32", "i32", 16, "i32", 2, "ring", |i, o| unsafe { l_C02_distance_point8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C02_distance_point8_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }),
    ("C03/cross_i32", "i32", 9, "i32", 3, "ring", |i, o| unsafe { l_C03_cross_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C03_cross_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 3])) }),
    ("C03/triple_i32", "i32", 9, "i32", 3, "ring", |i, o| unsafe { l_C03_triple_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C03_triple_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 3])) }),
    ("C04/product_1_1_1_i32", "i32", 2, "i32", 5, "ring", |i, o| unsafe { l_C04_product_1_1_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }, |i, o| unsafe { r_C04_product_1_1_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }),
    ("C04/apply_1x1_i32", "i32", 2, "i32", 4, "ring", |i, o| unsafe { l_C04_apply_1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C04_apply_1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 4])) }),
    ("C04/product_2_2_2_i32", "i32", 8, "i32", 20, "ring", |i, o| unsafe { l_C04_product_2_2_2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 20])) }, |i, o| unsafe { r_C04_product_2_2_2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 20])) }),
    ("C04/apply_2x2_i32", "i32", 6, "i32", 8, "ring", |i, o| unsafe { l_C04_apply_2x2_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C04_apply_2x2_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [i32; 8])) }),
    ("C04/product_3_3_3_i32", "i32", 18, "i32", 45, "ring", |i, o| unsafe { l_C04_product_3_3_3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 45])) }, |i, o| unsafe { r_C04_product_3_3_3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 45])) }),
    ("C04/apply_3x3_i32", "i32", 12, "i32", 12, "ring", |i, o| unsafe { l_C04_apply_3x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C04_apply_3x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 12])) }),
    ("C04/product_4_4_4_i32", "i32", 32, "i32", 80, "ring", |i, o| unsafe { l_C04_product_4_4_4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 80])) }, |i, o| unsafe { r_C04_product_4_4_4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 80])) }),
    ("C04/apply_4x4_i32", "i32", 20, "i32", 16, "ring", |i, o| unsafe { l_C04_apply_4x4_i32(&*(i as *const [i32; 20]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C04_apply_4x4_i32(&*(i as *const [i32; 20]), &mut *(o as *mut [i32; 16])) }),
    ("C04/product_2_3_2_i32", "i32", 12, "i32", 20, "ring", |i, o| unsafe { l_C04_product_2_3_2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 20])) }, |i, o| unsafe { r_C04_product_2_3_2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 20])) }),
    ("C04/product_3_2_3_i32", "i32", 12, "i32", 45, "ring", |i, o| unsafe { l_C04_product_3_2_3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 45])) }, |i, o| unsafe { r_C04_product_3_2_3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [i32; 45])) }),
    ("C04/product_1_4_1_i32", "i32", 8, "i32", 5, "ring", |i, o| unsafe { l_C04_product_1_4_1_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 5])) }, |i, o| unsafe { r_C04_product_1_4_1_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 5])) }),
    ("C04/apply_1x4_i32", "i32", 8, "i32", 4, "ring", |i, o| unsafe { l_C04_apply_1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C04_apply_1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 4])) }),
    ("C04/product_4_1_4_i32", "i32", 8, "i32", 80, "ring", |i, o| unsafe { l_C04_product_4_1_4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 80])) }, |i, o| unsafe { r_C04_product_4_1_4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 80])) }),
    ("C04/product_2_4_3_i32", "i32", 20, "i32", 30, "ring", |i, o| unsafe { l_C04_product_2_4_3_i32(&*(i as *const [i32; 20]), &mut *(o as *mut [i32; 30])) }, |i, o| unsafe { r_C04_product_2_4_3_i32(&*(i as *const [i32; 20]), &mut *(o as *mut [i32; 30])) }),
    ("C04/product_4_3_2_i32", "i32", 18, "i32", 40, "ring", |i, o| unsafe { l_C04_product_4_3_2_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 40])) }, |i, o| unsafe { r_C04_product_4_3_2_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 40])) }),
    ("C04/product_3_5_2_i32", "i32", 25, "i32", 24, "ring", |i, o| unsafe { l_C04_product_3_5_2_i32(&*(i as *const [i32; 25]), &mut *(o as *mut [i32; 24])) }, |i, o| unsafe { r_C04_product_3_5_2_i32(&*(i as *const [i32; 25]), &mut *(o as *mut [i32; 24])) }),
    ("C04/product_2_9_2_i32", "i32", 36, "i32", 16, "ring", |i, o| unsafe { l_C04_product_2_9_2_i32(&*(i as *const [i32; 36]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C04_product_2_9_2_i32(&*(i as *const [i32; 36]), &mut *(o as *mut [i32; 16])) }),
    ("C04/tr_dot_1_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C04_tr_dot_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_tr_dot_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C04/dot_1_i32", "i32", 2, "i32", 2, "ring", |i, o| unsafe { l_C04_dot_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_dot_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C05/det_1_i32", "i32", 1, "i32", 2, "ring", |i, o| unsafe { l_C05_det_1_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C05_det_1_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }),
    ("C04/tr_dot_2_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C04_tr_dot_2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_tr_dot_2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C04/dot_2_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C04_dot_2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_dot_2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C05/det_2_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C05_det_2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C05_det_2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C04/tr_dot_3_i32", "i32", 18, "i32", 2, "ring", |i, o| unsafe { l_C04_tr_dot_3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_tr_dot_3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 2])) }),
    ("C04/dot_3_i32", "i32", 18, "i32", 2, "ring", |i, o| unsafe { l_C04_dot_3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_dot_3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [i32; 2])) }),
    ("C05/det_3_i32", "i32", 9, "i32", 2, "ring", |i, o| unsafe { l_C05_det_3_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C05_det_3_i32(&*(i as *const [i32; 9]), &mut *(o as *mut [i32; 2])) }),
    ("C04/tr_dot_4_i32", "i32", 32, "i32", 2, "ring", |i, o| unsafe { l_C04_tr_dot_4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_tr_dot_4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 2])) }),
    ("C04/dot_4_i32", "i32", 32, "i32", 2, "ring", |i, o| unsafe { l_C04_dot_4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C04_dot_4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [i32; 2])) }),
    ("C05/det_4_i32", "i32", 16, "i32", 2, "ring", |i, o| unsafe { l_C05_det_4_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C05_det_4_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [i32; 2])) }),
    ("C10/product_i32", "i32", 8, "i32", 16, "ring", |i, o| unsafe { l_C10_product_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 16])) }, |i, o| unsafe { r_C10_product_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 16])) }),
    ("C10/squares_i32", "i32", 8, "i32", 4, "ring", |i, o| unsafe { l_C10_squares_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C10_squares_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 4])) }),
    ("C10/dot_i32", "i32", 8, "i32", 2, "ring", |i, o| unsafe { l_C10_dot_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C10_dot_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 2])) }),
    ("C10/squared_i32", "i32", 8, "i32", 8, "ring", |i, o| unsafe { l_C10_squared_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C10_squared_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 8])) }),
    ("C10/conjugate_i32", "i32", 8, "i32", 8, "ring", |i, o| unsafe { l_C10_conjugate_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 8])) }, |i, o| unsafe { r_C10_conjugate_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [i32; 8])) }),
    ("C15/product_i32", "i32", 4, "i32", 12, "ring", |i, o| unsafe { l_C15_product_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }, |i, o| unsafe { r_C15_product_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 12])) }),
    ("C15/squared_i32", "i32", 4, "i32", 4, "ring", |i, o| unsafe { l_C15_squared_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C15_squared_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 4])) }),
    ("C15/cubed_i32", "i32", 4, "i32", 4, "ring", |i, o| unsafe { l_C15_cubed_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C15_cubed_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 4])) }),
    ("C15/squares_i32", "i32", 4, "i32", 3, "ring", |i, o| unsafe { l_C15_squares_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C15_squares_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 3])) }),
    ("C15/scale_i32", "i32", 4, "i32", 2, "ring", |i, o| unsafe { l_C15_scale_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C15_scale_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 2])) }),
    ("C15/unscale_i32", "i32", 3, "i32", 2, "uf", |i, o| unsafe { l_C15_unscale_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C15_unscale_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 2])) }),
    ("C01/from_homogeneous_1_i32", "i32", 2, "i32", 2, "uf", |i, o| unsafe { l_C01_from_homogeneous_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C01_from_homogeneous_1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 2])) }),
    ("C01/from_homogeneous_2_i32", "i32", 3, "i32", 3, "uf", |i, o| unsafe { l_C01_from_homogeneous_2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C01_from_homogeneous_2_i32(&*(i as *const [i32; 3]), &mut *(o as *mut [i32; 3])) }),
    ("C01/from_homogeneous_3_i32", "i32", 4, "i32", 4, "uf", |i, o| unsafe { l_C01_from_homogeneous_3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 4])) }, |i, o| unsafe { r_C01_from_homogeneous_3_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [i32; 4])) }),
    ("C02/dot_vector1_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_vector1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_vector1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_vector1_i64", "i64", 1, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_vector1_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_vector1_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_vector1_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_vector1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_vector1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_point1_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_point1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_point1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_point1_i64", "i64", 1, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_point1_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_point1_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_point1_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_point1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_point1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_vector2_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_vector2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_vector2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_vector2_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_vector2_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_vector2_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_vector2_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_vector2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_vector2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_point2_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_point2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_point2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_point2_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_point2_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_point2_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_point2_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_point2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_point2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_vector3_i64", "i64", 6, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_vector3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_vector3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_vector3_i64", "i64", 3, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_vector3_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_vector3_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_vector3_i64", "i64", 6, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_vector3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_vector3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_point3_i64", "i64", 6, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_point3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_point3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_point3_i64", "i64", 3, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_point3_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_point3_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_point3_i64", "i64", 6, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_point3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_point3_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_vector4_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_vector4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_vector4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_vector4_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_vector4_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_vector4_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_vector4_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_vector4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_vector4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_point4_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_point4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_point4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_point4_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_point4_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_point4_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_point4_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_point4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_point4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_vector5_i64", "i64", 10, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_vector5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_vector5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_vector5_i64", "i64", 5, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_vector5_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_vector5_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_vector5_i64", "i64", 10, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_vector5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_vector5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_point5_i64", "i64", 10, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_point5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_point5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_point5_i64", "i64", 5, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_point5_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_point5_i64(&*(i as *const [i64; 5]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_point5_i64", "i64", 10, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_point5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_point5_i64(&*(i as *const [i64; 10]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_vector8_i64", "i64", 16, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_vector8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_vector8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_vector8_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_vector8_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_vector8_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_vector8_i64", "i64", 16, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_vector8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_vector8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }),
    ("C02/dot_point8_i64", "i64", 16, "i64", 2, "ring", |i, o| unsafe { l_C02_dot_point8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_dot_point8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }),
    ("C02/squares_point8_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C02_squares_point8_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_squares_point8_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C02/distance_point8_i64", "i64", 16, "i64", 2, "ring", |i, o| unsafe { l_C02_distance_point8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C02_distance_point8_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }),
    ("C03/cross_i64", "i64", 9, "i64", 3, "ring", |i, o| unsafe { l_C03_cross_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C03_cross_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 3])) }),
    ("C03/triple_i64", "i64", 9, "i64", 3, "ring", |i, o| unsafe { l_C03_triple_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C03_triple_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 3])) }),
    ("C04/product_1_1_1_i64", "i64", 2, "i64", 5, "ring", |i, o| unsafe { l_C04_product_1_1_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 5])) }, |i, o| unsafe { r_C04_product_1_1_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 5])) }),
    ("C04/apply_1x1_i64", "i64", 2, "i64", 4, "ring", |i, o| unsafe { l_C04_apply_1x1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C04_apply_1x1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 4])) }),
    ("C04/product_2_2_2_i64", "i64", 8, "i64", 20, "ring", |i, o| unsafe { l_C04_product_2_2_2_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 20])) }, |i, o| unsafe { r_C04_product_2_2_2_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 20])) }),
    ("C04/apply_2x2_i64", "i64", 6, "i64", 8, "ring", |i, o| unsafe { l_C04_apply_2x2_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C04_apply_2x2_i64(&*(i as *const [i64; 6]), &mut *(o as *mut [i64; 8])) }),
    ("C04/product_3_3_3_i64", "i64", 18, "i64", 45, "ring", |i, o| unsafe { l_C04_product_3_3_3_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 45])) }, |i, o| unsafe { r_C04_product_3_3_3_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 45])) }),
    ("C04/apply_3x3_i64", "i64", 12, "i64", 12, "ring", |i, o| unsafe { l_C04_apply_3x3_i64(&*(i as *const [i64; 12]), &mut *(o as *mut [i64; 12])) }, |i, o| unsafe { r_C04_apply_3x3_i64(&*(i as *const [i64; 12]), &mut *(o as *mut [i64; 12])) }),
    ("C04/product_4_4_4_i64", "i64", 32, "i64", 80, "ring", |i, o| unsafe { l_C04_product_4_4_4_i64(&*(i as *const [i64; 32]), &mut *(o as *mut [i64; 80])) }, |i, o| unsafe { r_C04_product_4_4_4_i64(&*(i as *const [i64; 32]), &mut *(o as *mut [i64; 80])) }),
    ("C04/apply_4x4_i64", "i64", 20, "i64", 16, "ring", |i, o| unsafe { l_C04_apply_4x4_i64(&*(i as *const [i64; 20]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C04_apply_4x4_i64(&*(i as *const [i64; 20]), &mut *(o as *mut [i64; 16])) }),
    ("C04/product_2_3_2_i64", "i64", 12, "i64", 20, "ring", |i, o| unsafe { l_C04_product_2_3_2_i64(&*(i as *const [i64; 12]), &mut *(o as *mut [i64; 20])) }, |i, o| unsafe { r_C04_product_2_3_2_i64(&*(i as *const [i64; 12]), &mut *(o as *mut [i64; 20])) }),
    ("C04/product_3_2_3_i64", "i64", 12, "i64", 45, "ring", |i, o| unsafe { l_C04_product_3_2_3_i64(&*(i as *const [i64; 12]), &mut *(o as *mut [i64; 45])) }, |i, o| unsafe { r_C04_product_3_2_3_i64(&*(i as *const [i64; 12]), &mut *(o as *mut [i64; 45])) }),
    ("C04/product_1_4_1_i64", "i64", 8, "i64", 5, "ring", |i, o| unsafe { l_C04_product_1_4_1_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 5])) }, |i, o| unsafe { r_C04_product_1_4_1_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 5])) }),
    ("C04/apply_1x4_i64", "i64", 8, "i64", 4, "ring", |i, o| unsafe { l_C04_apply_1x4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C04_apply_1x4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 4])) }),
    ("C04/product_4_1_4_i64", "i64", 8, "i64", 80, "ring", |i, o| unsafe { l_C04_product_4_1_4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 80])) }, |i, o| unsafe { r_C04_product_4_1_4_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 80])) }),
    ("C04/product_2_4_3_i64", "i64", 20, "i64", 30, "ring", |i, o| unsafe { l_C04_product_2_4_3_i64(&*(i as *const [i64; 20]), &mut *(o as *mut [i64; 30])) }, |i, o| unsafe { r_C04_product_2_4_3_i64(&*(i as *const [i64; 20]), &mut *(o as *mut [i64; 30])) }),
    ("C04/product_4_3_2_i64", "i64", 18, "i64", 40, "ring", |i, o| unsafe { l_C04_product_4_3_2_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 40])) }, |i, o| unsafe { r_C04_product_4_3_2_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 40])) }),
    ("C04/product_3_5_2_i64", "i64", 25, "i64", 24, "ring", |i, o| unsafe { l_C04_product_3_5_2_i64(&*(i as *const [i64; 25]), &mut *(o as *mut [i64; 24])) }, |i, o| unsafe { r_C04_product_3_5_2_i64(&*(i as *const [i64; 25]), &mut *(o as *mut [i64; 24])) }),
    ("C04/product_2_9_2_i64", "i64", 36, "i64", 16, "ring", |i, o| unsafe { l_C04_product_2_9_2_i64(&*(i as *const [i64; 36]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C04_product_2_9_2_i64(&*(i as *const [i64; 36]), &mut *(o as *mut [i64; 16])) }),
    ("C04/tr_dot_1_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C04_tr_dot_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_tr_dot_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C04/dot_1_i64", "i64", 2, "i64", 2, "ring", |i, o| unsafe { l_C04_dot_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_dot_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C05/det_1_i64", "i64", 1, "i64", 2, "ring", |i, o| unsafe { l_C05_det_1_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C05_det_1_i64(&*(i as *const [i64; 1]), &mut *(o as *mut [i64; 2])) }),
    ("C04/tr_dot_2_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C04_tr_dot_2_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_tr_dot_2_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C04/dot_2_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C04_dot_2_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_dot_2_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C05/det_2_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C05_det_2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C05_det_2_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C04/tr_dot_3_i64", "i64", 18, "i64", 2, "ring", |i, o| unsafe { l_C04_tr_dot_3_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_tr_dot_3_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 2])) }),
    ("C04/dot_3_i64", "i64", 18, "i64", 2, "ring", |i, o| unsafe { l_C04_dot_3_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_dot_3_i64(&*(i as *const [i64; 18]), &mut *(o as *mut [i64; 2])) }),
    ("C05/det_3_i64", "i64", 9, "i64", 2, "ring", |i, o| unsafe { l_C05_det_3_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C05_det_3_i64(&*(i as *const [i64; 9]), &mut *(o as *mut [i64; 2])) }),
    ("C04/tr_dot_4_i64", "i64", 32, "i64", 2, "ring", |i, o| unsafe { l_C04_tr_dot_4_i64(&*(i as *const [i64; 32]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_tr_dot_4_i64(&*(i as *const [i64; 32]), &mut *(o as *mut [i64; 2])) }),
    ("C04/dot_4_i64", "i64", 32, "i64", 2, "ring", |i, o| unsafe { l_C04_dot_4_i64(&*(i as *const [i64; 32]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C04_dot_4_i64(&*(i as *const [i64; 32]), &mut *(o as *mut [i64; 2])) }),
    ("C05/det_4_i64", "i64", 16, "i64", 2, "ring", |i, o| unsafe { l_C05_det_4_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C05_det_4_i64(&*(i as *const [i64; 16]), &mut *(o as *mut [i64; 2])) }),
    ("C10/product_i64", "i64", 8, "i64", 16, "ring", |i, o| unsafe { l_C10_product_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 16])) }, |i, o| unsafe { r_C10_product_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 16])) }),
    ("C10/squares_i64", "i64", 8, "i64", 4, "ring", |i, o| unsafe { l_C10_squares_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C10_squares_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 4])) }),
    ("C10/dot_i64", "i64", 8, "i64", 2, "ring", |i, o| unsafe { l_C10_dot_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C10_dot_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 2])) }),
    ("C10/squared_i64", "i64", 8, "i64", 8, "ring", |i, o| unsafe { l_C10_squared_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C10_squared_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 8])) }),
    ("C10/conjugate_i64", "i64", 8, "i64", 8, "ring", |i, o| unsafe { l_C10_conjugate_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 8])) }, |i, o| unsafe { r_C10_conjugate_i64(&*(i as *const [i64; 8]), &mut *(o as *mut [i64; 8])) }),
    ("C15/product_i64", "i64", 4, "i64", 12, "ring", |i, o| unsafe { l_C15_product_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }, |i, o| unsafe { r_C15_product_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 12])) }),
    ("C15/squared_i64", "i64", 4, "i64", 4, "ring", |i, o| unsafe { l_C15_squared_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C15_squared_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 4])) }),
    ("C15/cubed_i64", "i64", 4, "i64", 4, "ring", |i, o| unsafe { l_C15_cubed_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C15_cubed_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 4])) }),
    ("C15/squares_i64", "i64", 4, "i64", 3, "ring", |i, o| unsafe { l_C15_squares_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C15_squares_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 3])) }),
    ("C15/scale_i64", "i64", 4, "i64", 2, "ring", |i, o| unsafe { l_C15_scale_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C15_scale_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 2])) }),
    ("C15/unscale_i64", "i64", 3, "i64", 2, "uf", |i, o| unsafe { l_C15_unscale_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C15_unscale_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 2])) }),
    ("C01/from_homogeneous_1_i64", "i64", 2, "i64", 2, "uf", |i, o| unsafe { l_C01_from_homogeneous_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }, |i, o| unsafe { r_C01_from_homogeneous_1_i64(&*(i as *const [i64; 2]), &mut *(o as *mut [i64; 2])) }),
    ("C01/from_homogeneous_2_i64", "i64", 3, "i64", 3, "uf", |i, o| unsafe { l_C01_from_homogeneous_2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 3])) }, |i, o| unsafe { r_C01_from_homogeneous_2_i64(&*(i as *const [i64; 3]), &mut *(o as *mut [i64; 3])) }),
    ("C01/from_homogeneous_3_i64", "i64", 4, "i64", 4, "uf", |i, o| unsafe { l_C01_from_homogeneous_3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 4])) }, |i, o| unsafe { r_C01_from_homogeneous_3_i64(&*(i as *const [i64; 4]), &mut *(o as *mut [i64; 4])) }),
    ("C02/dot_vector1_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_vector1_f32", "f32", 1, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_vector1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_vector1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_vector1_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_point1_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_point1_f32", "f32", 1, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_point1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_point1_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_point1_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_vector2_f32", "f32", 4, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_vector2_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_vector2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_vector2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_vector2_f32", "f32", 4, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_point2_f32", "f32", 4, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_point2_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_point2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_point2_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_point2_f32", "f32", 4, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_vector3_f32", "f32", 6, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_vector3_f32", "f32", 3, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_vector3_f32", "f32", 6, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_point3_f32", "f32", 6, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_point3_f32", "f32", 3, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_point3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_point3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_point3_f32", "f32", 6, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_vector4_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_vector4_f32", "f32", 4, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_vector4_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_point4_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_point4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_point4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_point4_f32", "f32", 4, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_point4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_point4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_point4_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_point4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_point4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_vector5_f32", "f32", 10, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_vector5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_vector5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_vector5_f32", "f32", 5, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_vector5_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_vector5_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_vector5_f32", "f32", 10, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_vector5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_vector5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_point5_f32", "f32", 10, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_point5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_point5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_point5_f32", "f32", 5, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_point5_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_point5_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_point5_f32", "f32", 10, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_point5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_point5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_vector8_f32", "f32", 16, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_vector8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_vector8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_vector8_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_vector8_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_vector8_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_vector8_f32", "f32", 16, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_vector8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_vector8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }),
    ("C02/dot_point8_f32", "f32", 16, "f32", 2, "cls", |i, o| unsafe { l_C02_dot_point8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_dot_point8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }),
    ("C02/squares_point8_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C02_squares_point8_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_squares_point8_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C02/distance_point8_f32", "f32", 16, "f32", 2, "cls", |i, o| unsafe { l_C02_distance_point8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C02_distance_point8_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [f32; 2])) }),
    ("C03/cross_f32", "f32", 9, "f32", 3, "cls", |i, o| unsafe { l_C03_cross_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C03_cross_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [f32; 3])) }),
    ("C04/product_1_1_1_f32", "f32", 2, "f32", 5, "cls", |i, o| unsafe { l_C04_product_1_1_1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C04_product_1_1_1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C04/apply_1x1_f32", "f32", 2, "f32", 4, "cls", |i, o| unsafe { l_C04_apply_1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C04_apply_1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 4])) }),
    ("C04/product_2_2_2_f32", "f32", 8, "f32", 20, "cls", |i, o| unsafe { l_C04_product_2_2_2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 20])) }, |i, o| unsafe { r_C04_product_2_2_2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 20])) }),
    ("C04/apply_2x2_f32", "f32", 6, "f32", 8, "cls", |i, o| unsafe { l_C04_apply_2x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 8])) }, |i, o| unsafe { r_C04_apply_2x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [f32; 8])) }),
    ("C04/product_3_3_3_f32", "f32", 18, "f32", 45, "cls", |i, o| unsafe { l_C04_product_3_3_3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 45])) }, |i, o| unsafe { r_C04_product_3_3_3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 45])) }),
    ("C04/apply_3x3_f32", "f32", 12, "f32", 12, "cls", |i, o| unsafe { l_C04_apply_3x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C04_apply_3x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 12])) }),
    ("C04/product_4_4_4_f32", "f32", 32, "f32", 80, "cls", |i, o| unsafe { l_C04_product_4_4_4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 80])) }, |i, o| unsafe { r_C04_product_4_4_4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 80])) }),
    ("C04/apply_4x4_f32", "f32", 20, "f32", 16, "cls", |i, o| unsafe { l_C04_apply_4x4_f32(&*(i as *const [f32; 20]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C04_apply_4x4_f32(&*(i as *const [f32; 20]), &mut *(o as *mut [f32; 16])) }),
    ("C04/product_2_3_2_f32", "f32", 12, "f32", 20, "cls", |i, o| unsafe { l_C04_product_2_3_2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 20])) }, |i, o| unsafe { r_C04_product_2_3_2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 20])) }),
    ("C04/product_3_2_3_f32", "f32", 12, "f32", 45, "cls", |i, o| unsafe { l_C04_product_3_2_3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 45])) }, |i, o| unsafe { r_C04_product_3_2_3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [f32; 45])) }),
    ("C04/product_1_4_1_f32", "f32", 8, "f32", 5, "cls", |i, o| unsafe { l_C04_product_1_4_1_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C04_product_1_4_1_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 5])) }),
    ("C04/apply_1x4_f32", "f32", 8, "f32", 4, "cls", |i, o| unsafe { l_C04_apply_1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C04_apply_1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 4])) }),
    ("C04/product_4_1_4_f32", "f32", 8, "f32", 80, "cls", |i, o| unsafe { l_C04_product_4_1_4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 80])) }, |i, o| unsafe { r_C04_product_4_1_4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 80])) }),
    ("C04/product_2_4_3_f32", "f32", 20, "f32", 30, "cls", |i, o| unsafe { l_C04_product_2_4_3_f32(&*(i as *const [f32; 20]), &mut *(o as *mut [f32; 30])) }, |i, o| unsafe { r_C04_product_2_4_3_f32(&*(i as *const [f32; 20]), &mut *(o as *mut [f32; 30])) }),
    ("C04/product_4_3_2_f32", "f32", 18, "f32", 40, "cls", |i, o| unsafe { l_C04_product_4_3_2_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 40])) }, |i, o| unsafe { r_C04_product_4_3_2_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 40])) }),
    ("C04/product_3_5_2_f32", "f32", 25, "f32", 24, "cls", |i, o| unsafe { l_C04_product_3_5_2_f32(&*(i as *const [f32; 25]), &mut *(o as *mut [f32; 24])) }, |i, o| unsafe { r_C04_product_3_5_2_f32(&*(i as *const [f32; 25]), &mut *(o as *mut [f32; 24])) }),
    ("C04/product_2_9_2_f32", "f32", 36, "f32", 16, "cls", |i, o| unsafe { l_C04_product_2_9_2_f32(&*(i as *const [f32; 36]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C04_product_2_9_2_f32(&*(i as *const [f32; 36]), &mut *(o as *mut [f32; 16])) }),
    ("C04/tr_dot_1_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C04_tr_dot_1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_tr_dot_1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C04/dot_1_f32", "f32", 2, "f32", 2, "cls", |i, o| unsafe { l_C04_dot_1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_dot_1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 2])) }),
    ("C04/tr_dot_2_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C04_tr_dot_2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_tr_dot_2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C04/dot_2_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C04_dot_2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_dot_2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C04/tr_dot_3_f32", "f32", 18, "f32", 2, "cls", |i, o| unsafe { l_C04_tr_dot_3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_tr_dot_3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 2])) }),
    ("C04/dot_3_f32", "f32", 18, "f32", 2, "cls", |i, o| unsafe { l_C04_dot_3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_dot_3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [f32; 2])) }),
    ("C04/tr_dot_4_f32", "f32", 32, "f32", 2, "cls", |i, o| unsafe { l_C04_tr_dot_4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_tr_dot_4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 2])) }),
    ("C04/dot_4_f32", "f32", 32, "f32", 2, "cls", |i, o| unsafe { l_C04_dot_4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C04_dot_4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [f32; 2])) }),
    ("C10/product_f32", "f32", 8, "f32", 16, "cls", |i, o| unsafe { l_C10_product_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 16])) }, |i, o| unsafe { r_C10_product_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 16])) }),
    ("C10/squares_f32", "f32", 8, "f32", 4, "cls", |i, o| unsafe { l_C10_squares_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 4])) }, |i, o| unsafe { r_C10_squares_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 4])) }),
    ("C10/dot_f32", "f32", 8, "f32", 2, "cls", |i, o| unsafe { l_C10_dot_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C10_dot_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [f32; 2])) }),
    ("C15/product_f32", "f32", 4, "f32", 12, "cls", |i, o| unsafe { l_C15_product_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }, |i, o| unsafe { r_C15_product_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [f32; 12])) }),
    ("C02/dot_vector1_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_vector1_f64", "f64", 1, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_vector1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_vector1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_vector1_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_point1_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_point1_f64", "f64", 1, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_point1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_point1_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_point1_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_vector2_f64", "f64", 4, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_vector2_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_vector2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_vector2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_vector2_f64", "f64", 4, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_point2_f64", "f64", 4, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_point2_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_point2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_point2_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_point2_f64", "f64", 4, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_vector3_f64", "f64", 6, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_vector3_f64", "f64", 3, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_vector3_f64", "f64", 6, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_point3_f64", "f64", 6, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_point3_f64", "f64", 3, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_point3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_point3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_point3_f64", "f64", 6, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_vector4_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_vector4_f64", "f64", 4, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_vector4_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_point4_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_point4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_point4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_point4_f64", "f64", 4, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_point4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_point4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_point4_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_point4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_point4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_vector5_f64", "f64", 10, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_vector5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_vector5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_vector5_f64", "f64", 5, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_vector5_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_vector5_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_vector5_f64", "f64", 10, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_vector5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_vector5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_point5_f64", "f64", 10, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_point5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_point5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_point5_f64", "f64", 5, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_point5_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_point5_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_point5_f64", "f64", 10, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_point5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_point5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_vector8_f64", "f64", 16, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_vector8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_vector8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_vector8_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_vector8_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_vector8_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_vector8_f64", "f64", 16, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_vector8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_vector8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }),
    ("C02/dot_point8_f64", "f64", 16, "f64", 2, "cls", |i, o| unsafe { l_C02_dot_point8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_dot_point8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }),
    ("C02/squares_point8_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C02_squares_point8_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_squares_point8_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C02/distance_point8_f64", "f64", 16, "f64", 2, "cls", |i, o| unsafe { l_C02_distance_point8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C02_distance_point8_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [f64; 2])) }),
    ("C03/cross_f64", "f64", 9, "f64", 3, "cls", |i, o| unsafe { l_C03_cross_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C03_cross_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [f64; 3])) }),
    ("C04/product_1_1_1_f64", "f64", 2, "f64", 5, "cls", |i, o| unsafe { l_C04_product_1_1_1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C04_product_1_1_1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C04/apply_1x1_f64", "f64", 2, "f64", 4, "cls", |i, o| unsafe { l_C04_apply_1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C04_apply_1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 4])) }),
    ("C04/product_2_2_2_f64", "f64", 8, "f64", 20, "cls", |i, o| unsafe { l_C04_product_2_2_2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 20])) }, |i, o| unsafe { r_C04_product_2_2_2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 20])) }),
    ("C04/apply_2x2_f64", "f64", 6, "f64", 8, "cls", |i, o| unsafe { l_C04_apply_2x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 8])) }, |i, o| unsafe { r_C04_apply_2x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [f64; 8])) }),
    ("C04/product_3_3_3_f64", "f64", 18, "f64", 45, "cls", |i, o| unsafe { l_C04_product_3_3_3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 45])) }, |i, o| unsafe { r_C04_product_3_3_3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 45])) }),
    ("C04/apply_3x3_f64", "f64", 12, "f64", 12, "cls", |i, o| unsafe { l_C04_apply_3x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C04_apply_3x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 12])) }),
    ("C04/product_4_4_4_f64", "f64", 32, "f64", 80, "cls", |i, o| unsafe { l_C04_product_4_4_4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 80])) }, |i, o| unsafe { r_C04_product_4_4_4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 80])) }),
    ("C04/apply_4x4_f64", "f64", 20, "f64", 16, "cls", |i, o| unsafe { l_C04_apply_4x4_f64(&*(i as *const [f64; 20]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C04_apply_4x4_f64(&*(i as *const [f64; 20]), &mut *(o as *mut [f64; 16])) }),
    ("C04/product_2_3_2_f64", "f64", 12, "f64", 20, "cls", |i, o| unsafe { l_C04_product_2_3_2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 20])) }, |i, o| unsafe { r_C04_product_2_3_2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 20])) }),
    ("C04/product_3_2_3_f64", "f64", 12, "f64", 45, "cls", |i, o| unsafe { l_C04_product_3_2_3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 45])) }, |i, o| unsafe { r_C04_product_3_2_3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [f64; 45])) }),
    ("C04/product_1_4_1_f64", "f64", 8, "f64", 5, "cls", |i, o| unsafe { l_C04_product_1_4_1_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C04_product_1_4_1_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 5])) }),
    ("C04/apply_1x4_f64", "f64", 8, "f64", 4, "cls", |i, o| unsafe { l_C04_apply_1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C04_apply_1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 4])) }),
    ("C04/product_4_1_4_f64", "f64", 8, "f64", 80, "cls", |i, o| unsafe { l_C04_product_4_1_4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 80])) }, |i, o| unsafe { r_C04_product_4_1_4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 80])) }),
    ("C04/product_2_4_3_f64", "f64", 20, "f64", 30, "cls", |i, o| unsafe { l_C04_product_2_4_3_f64(&*(i as *const [f64; 20]), &mut *(o as *mut [f64; 30])) }, |i, o| unsafe { r_C04_product_2_4_3_f64(&*(i as *const [f64; 20]), &mut *(o as *mut [f64; 30])) }),
    ("C04/product_4_3_2_f64", "f64", 18, "f64", 40, "cls", |i, o| unsafe { l_C04_product_4_3_2_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 40])) }, |i, o| unsafe { r_C04_product_4_3_2_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 40])) }),
    ("C04/product_3_5_2_f64", "f64", 25, "f64", 24, "cls", |i, o| unsafe { l_C04_product_3_5_2_f64(&*(i as *const [f64; 25]), &mut *(o as *mut [f64; 24])) }, |i, o| unsafe { r_C04_product_3_5_2_f64(&*(i as *const [f64; 25]), &mut *(o as *mut [f64; 24])) }),
    ("C04/product_2_9_2_f64", "f64", 36, "f64", 16, "cls", |i, o| unsafe { l_C04_product_2_9_2_f64(&*(i as *const [f64; 36]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C04_product_2_9_2_f64(&*(i as *const [f64; 36]), &mut *(o as *mut [f64; 16])) }),
    ("C04/tr_dot_1_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C04_tr_dot_1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_tr_dot_1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C04/dot_1_f64", "f64", 2, "f64", 2, "cls", |i, o| unsafe { l_C04_dot_1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_dot_1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 2])) }),
    ("C04/tr_dot_2_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C04_tr_dot_2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_tr_dot_2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C04/dot_2_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C04_dot_2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_dot_2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C04/tr_dot_3_f64", "f64", 18, "f64", 2, "cls", |i, o| unsafe { l_C04_tr_dot_3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_tr_dot_3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 2])) }),
    ("C04/dot_3_f64", "f64", 18, "f64", 2, "cls", |i, o| unsafe { l_C04_dot_3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_dot_3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [f64; 2])) }),
    ("C04/tr_dot_4_f64", "f64", 32, "f64", 2, "cls", |i, o| unsafe { l_C04_tr_dot_4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_tr_dot_4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 2])) }),
    ("C04/dot_4_f64", "f64", 32, "f64", 2, "cls", |i, o| unsafe { l_C04_dot_4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C04_dot_4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [f64; 2])) }),
    ("C10/product_f64", "f64", 8, "f64", 16, "cls", |i, o| unsafe { l_C10_product_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 16])) }, |i, o| unsafe { r_C10_product_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 16])) }),
    ("C10/squares_f64", "f64", 8, "f64", 4, "cls", |i, o| unsafe { l_C10_squares_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 4])) }, |i, o| unsafe { r_C10_squares_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 4])) }),
    ("C10/dot_f64", "f64", 8, "f64", 2, "cls", |i, o| unsafe { l_C10_dot_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C10_dot_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [f64; 2])) }),
    ("C15/product_f64", "f64", 4, "f64", 12, "cls", |i, o| unsafe { l_C15_product_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }, |i, o| unsafe { r_C15_product_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [f64; 12])) }),
    ("C29/eq_vector1_u8", "u8", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector2_u8", "u8", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector3_u8", "u8", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector4_u8", "u8", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector5_u8", "u8", 10, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector5_u8(&*(i as *const [u8; 10]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector9_u8", "u8", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector9_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector9_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point1_u8", "u8", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point2_u8", "u8", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point2_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point3_u8", "u8", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point3_u8(&*(i as *const [u8; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point4_u8", "u8", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x1_u8", "u8", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x1_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x2_u8", "u8", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x2_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x3_u8", "u8", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x3_u8(&*(i as *const [u8; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x4_u8", "u8", 32, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x4_u8(&*(i as *const [u8; 32]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x3_u8", "u8", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x3_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x2_u8", "u8", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x2_u8(&*(i as *const [u8; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x3_u8", "u8", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x3_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x3_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x4_u8", "u8", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x4_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x4_u8(&*(i as *const [u8; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x4_u8", "u8", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x4_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x2_u8", "u8", 16, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x2_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x2_u8(&*(i as *const [u8; 16]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_quaternion_u8", "u8", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_quaternion_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_quaternion_u8(&*(i as *const [u8; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_complex_u8", "u8", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_complex_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_complex_u8(&*(i as *const [u8; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_radians_u8", "u8", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_degrees_u8", "u8", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_vector1_i32", "i32", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector2_i32", "i32", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector3_i32", "i32", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector4_i32", "i32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector5_i32", "i32", 10, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector5_i32(&*(i as *const [i32; 10]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector9_i32", "i32", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector9_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector9_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point1_i32", "i32", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point2_i32", "i32", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point2_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point3_i32", "i32", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point3_i32(&*(i as *const [i32; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point4_i32", "i32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x1_i32", "i32", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x1_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x2_i32", "i32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x2_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x3_i32", "i32", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x3_i32(&*(i as *const [i32; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x4_i32", "i32", 32, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x4_i32(&*(i as *const [i32; 32]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x3_i32", "i32", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x3_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x2_i32", "i32", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x2_i32(&*(i as *const [i32; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x3_i32", "i32", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x3_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x3_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x4_i32", "i32", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x4_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x4_i32(&*(i as *const [i32; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x4_i32", "i32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x4_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x2_i32", "i32", 16, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x2_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x2_i32(&*(i as *const [i32; 16]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_quaternion_i32", "i32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_quaternion_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_quaternion_i32(&*(i as *const [i32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_complex_i32", "i32", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_complex_i32(&*(i as *const [i32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_radians_i32", "i32", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_degrees_i32", "i32", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_vector1_u64", "u64", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector2_u64", "u64", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector3_u64", "u64", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector4_u64", "u64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector5_u64", "u64", 10, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector5_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector5_u64(&*(i as *const [u64; 10]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector9_u64", "u64", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector9_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector9_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point1_u64", "u64", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point2_u64", "u64", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point2_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point3_u64", "u64", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point3_u64(&*(i as *const [u64; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point4_u64", "u64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x1_u64", "u64", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x1_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x2_u64", "u64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x2_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x2_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x3_u64", "u64", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x3_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x3_u64(&*(i as *const [u64; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x4_u64", "u64", 32, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x4_u64(&*(i as *const [u64; 32]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x4_u64(&*(i as *const [u64; 32]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x3_u64", "u64", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x3_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x3_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x2_u64", "u64", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x2_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x2_u64(&*(i as *const [u64; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x3_u64", "u64", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x3_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x3_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x4_u64", "u64", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x4_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x4_u64(&*(i as *const [u64; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x4_u64", "u64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x4_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x2_u64", "u64", 16, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x2_u64(&*(i as *const [u64; 16]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x2_u64(&*(i as *const [u64; 16]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_quaternion_u64", "u64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_quaternion_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_quaternion_u64(&*(i as *const [u64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_complex_u64", "u64", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_complex_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_complex_u64(&*(i as *const [u64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_radians_u64", "u64", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_radians_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_radians_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_degrees_u64", "u64", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_degrees_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_degrees_u64(&*(i as *const [u64; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_vector1_f32", "f32", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector2_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector3_f32", "f32", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector4_f32", "f32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector5_f32", "f32", 10, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector5_f32(&*(i as *const [f32; 10]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector9_f32", "f32", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector9_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector9_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point1_f32", "f32", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point2_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point3_f32", "f32", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point3_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point4_f32", "f32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x1_f32", "f32", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x1_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x2_f32", "f32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x3_f32", "f32", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x3_f32(&*(i as *const [f32; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x4_f32", "f32", 32, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x4_f32(&*(i as *const [f32; 32]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x3_f32", "f32", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x3_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x2_f32", "f32", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x2_f32(&*(i as *const [f32; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x3_f32", "f32", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x3_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x3_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x4_f32", "f32", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x4_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x4_f32(&*(i as *const [f32; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x4_f32", "f32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x4_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x2_f32", "f32", 16, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x2_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x2_f32(&*(i as *const [f32; 16]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_quaternion_f32", "f32", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_quaternion_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_quaternion_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_complex_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_complex_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_radians_f32", "f32", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_degrees_f32", "f32", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_euler_radians_f32", "f32", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_euler_radians_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_euler_radians_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_euler_degrees_f32", "f32", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_euler_degrees_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_euler_degrees_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector1_f64", "f64", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector2_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector3_f64", "f64", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector4_f64", "f64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector5_f64", "f64", 10, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector5_f64(&*(i as *const [f64; 10]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_vector9_f64", "f64", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_vector9_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_vector9_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point1_f64", "f64", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point2_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point3_f64", "f64", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point3_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_point4_f64", "f64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_point4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_point4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x1_f64", "f64", 2, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x1_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x2_f64", "f64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x3_f64", "f64", 18, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x3_f64(&*(i as *const [f64; 18]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x4_f64", "f64", 32, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x4_f64(&*(i as *const [f64; 32]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix2x3_f64", "f64", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix2x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix2x3_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x2_f64", "f64", 12, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x2_f64(&*(i as *const [f64; 12]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x3_f64", "f64", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x3_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x3_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix3x4_f64", "f64", 24, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix3x4_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix3x4_f64(&*(i as *const [f64; 24]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix1x4_f64", "f64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix1x4_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_matrix4x2_f64", "f64", 16, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_matrix4x2_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_matrix4x2_f64(&*(i as *const [f64; 16]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_quaternion_f64", "f64", 8, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_quaternion_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_quaternion_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_complex_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_complex_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_radians_f64", "f64", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_degrees_f64", "f64", 2, "u8", 9, "uf", |i, o| unsafe { l_C29_eq_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C29_eq_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [u8; 9])) }),
    ("C29/eq_euler_radians_f64", "f64", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_euler_radians_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_euler_radians_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C29/eq_euler_degrees_f64", "f64", 6, "u8", 4, "uf", |i, o| unsafe { l_C29_eq_euler_degrees_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C29_eq_euler_degrees_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_vector1_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_vector1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_vector1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_vector1_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_vector1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_vector1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_vector1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_vector1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_vector1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_vector1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_vector1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_vector2_f32", "f32", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_vector2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_vector2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_vector2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_vector2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_vector2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_vector2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_vector2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_vector2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_vector2_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_vector2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_vector2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_vector2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_vector2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_vector2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_vector2_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_vector2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_vector2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_vector3_f32", "f32", 7, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_vector3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_vector3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_vector3_f32", "f32", 9, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_vector3_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_vector3_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_vector3_f32", "f32", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_all_each_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_each_vector3_f32", "f32", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_each_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_each_vector3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_all_each_vector3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_all_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_all_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_each_vector3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_all_each_vector3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_all_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_all_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_each_vector3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_each_vector3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_all_each_vector4_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_vector4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_all_each_vector4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_each_vector4_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_each_vector4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_each_vector4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_all_each_vector4_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_all_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_all_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_each_vector4_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_all_each_vector4_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_all_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_all_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_each_vector4_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_each_vector4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_each_vector5_f32", "f32", 3, "u8", 5, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_vector5_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_abs_diff_all_each_vector5_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 5])) }),
    ("C23/abs_diff_each_vector5_f32", "f32", 3, "u8", 5, "uf", |i, o| unsafe { l_C23_abs_diff_each_vector5_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_abs_diff_each_vector5_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 5])) }),
    ("C23/relative_all_each_vector5_f32", "f32", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_relative_all_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_relative_all_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/relative_each_vector5_f32", "f32", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_relative_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_relative_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/ulps_all_each_vector5_f32", "f32", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_ulps_all_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_ulps_all_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/ulps_each_vector5_f32", "f32", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_ulps_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_ulps_each_vector5_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/abs_diff_all_point1_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_point1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_point1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_point1_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_point1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_point1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_point1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_point1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_point1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_point1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_point1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_point2_f32", "f32", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_point2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_point2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_point2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_point2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_point2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_point2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_point2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_point2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_point2_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_point2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_point2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_point2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_point2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_point2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_point2_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_point2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_point2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_point3_f32", "f32", 7, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_point3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_point3_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_point3_f32", "f32", 9, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_point3_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_point3_f32(&*(i as *const [f32; 9]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_point3_f32", "f32", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_point3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_all_each_point3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_each_point3_f32", "f32", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_each_point3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_each_point3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_all_each_point3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_all_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_all_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_each_point3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_all_each_point3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_all_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_all_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_each_point3_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_each_point3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_all_matrix1x1_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_matrix1x1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_matrix1x1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_matrix1x1_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_matrix1x1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_matrix1x1_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_matrix1x1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_matrix1x1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_matrix1x1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_matrix1x1_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_matrix1x1_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_matrix2x2_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix2x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix2x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_each_matrix2x2_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix2x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix2x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_all_each_matrix2x2_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_all_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_each_matrix2x2_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_all_each_matrix2x2_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_each_matrix2x2_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_each_matrix2x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_matrix1x2_f32", "f32", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_matrix1x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_matrix1x2_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_matrix1x2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_matrix1x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_matrix1x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_matrix1x2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_matrix1x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_matrix1x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_matrix1x2_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_matrix1x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_matrix1x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_matrix1x2_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_matrix1x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_matrix1x2_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_matrix1x2_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_matrix1x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_matrix1x2_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_matrix3x2_f32", "f32", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix3x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix3x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_each_matrix3x2_f32", "f32", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix3x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix3x2_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_all_each_matrix3x2_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_all_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_each_matrix3x2_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_all_each_matrix3x2_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_each_matrix3x2_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_each_matrix3x2_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_all_each_matrix2x3_f32", "f32", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix2x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix2x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_each_matrix2x3_f32", "f32", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix2x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix2x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_all_each_matrix2x3_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_all_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_each_matrix2x3_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_all_each_matrix2x3_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_each_matrix2x3_f32", "f32", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_each_matrix2x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_all_each_matrix3x3_f32", "f32", 3, "u8", 9, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix3x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix3x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 9])) }),
    ("C23/abs_diff_each_matrix3x3_f32", "f32", 3, "u8", 9, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix3x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix3x3_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 9])) }),
    ("C23/relative_all_each_matrix3x3_f32", "f32", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_relative_all_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/relative_each_matrix3x3_f32", "f32", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_relative_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_relative_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/ulps_all_each_matrix3x3_f32", "f32", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/ulps_each_matrix3x3_f32", "f32", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_ulps_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_ulps_each_matrix3x3_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/abs_diff_all_each_matrix4x4_f32", "f32", 3, "u8", 16, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix4x4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix4x4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 16])) }),
    ("C23/abs_diff_each_matrix4x4_f32", "f32", 3, "u8", 16, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix4x4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix4x4_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 16])) }),
    ("C23/relative_all_each_matrix4x4_f32", "f32", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_relative_all_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/relative_each_matrix4x4_f32", "f32", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_relative_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_relative_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/ulps_all_each_matrix4x4_f32", "f32", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/ulps_each_matrix4x4_f32", "f32", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_ulps_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_ulps_each_matrix4x4_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/abs_diff_all_each_quaternion_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_quaternion_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_all_each_quaternion_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_each_quaternion_f32", "f32", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_each_quaternion_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_each_quaternion_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_all_each_quaternion_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_all_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_all_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_each_quaternion_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_all_each_quaternion_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_all_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_all_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_each_quaternion_f32", "f32", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_each_quaternion_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_complex_f32", "f32", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_complex_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_complex_f32(&*(i as *const [f32; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_complex_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_complex_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_complex_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_complex_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_complex_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_complex_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_complex_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_complex_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_complex_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_complex_f32", "f32", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_complex_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_complex_f32(&*(i as *const [f32; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_complex_f32", "f32", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_complex_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_complex_f32(&*(i as *const [f32; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_radians_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_radians_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_radians_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_radians_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_radians_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_radians_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_radians_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_radians_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_radians_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_degrees_f32", "f32", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_degrees_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_degrees_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_degrees_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_degrees_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_degrees_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_degrees_f32", "f32", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_degrees_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_degrees_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_euler_f32", "f32", 7, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_euler_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_euler_f32(&*(i as *const [f32; 7]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_euler_f32", "f32", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_euler_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_all_each_euler_f32(&*(i as *const [f32; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_all_each_euler_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_all_each_euler_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_all_each_euler_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_all_each_euler_f32", "f32", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_all_each_euler_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_all_each_euler_f32(&*(i as *const [f32; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_all_vector1_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_vector1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_vector1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_vector1_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_vector1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_vector1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_vector1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_vector1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_vector1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_vector1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_vector1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_vector2_f64", "f64", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_vector2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_vector2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_vector2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_vector2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_vector2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_vector2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_vector2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_vector2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_vector2_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_vector2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_vector2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_vector2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_vector2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_vector2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_vector2_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_vector2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_vector2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_vector3_f64", "f64", 7, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_vector3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_vector3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_vector3_f64", "f64", 9, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_vector3_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_vector3_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_vector3_f64", "f64", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_all_each_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_each_vector3_f64", "f64", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_each_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_each_vector3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_all_each_vector3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_all_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_all_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_each_vector3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_all_each_vector3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_all_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_all_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_each_vector3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_each_vector3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_all_each_vector4_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_vector4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_all_each_vector4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_each_vector4_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_each_vector4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_each_vector4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_all_each_vector4_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_all_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_all_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_each_vector4_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_all_each_vector4_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_all_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_all_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_each_vector4_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_each_vector4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_each_vector5_f64", "f64", 3, "u8", 5, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_vector5_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_abs_diff_all_each_vector5_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 5])) }),
    ("C23/abs_diff_each_vector5_f64", "f64", 3, "u8", 5, "uf", |i, o| unsafe { l_C23_abs_diff_each_vector5_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_abs_diff_each_vector5_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 5])) }),
    ("C23/relative_all_each_vector5_f64", "f64", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_relative_all_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_relative_all_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/relative_each_vector5_f64", "f64", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_relative_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_relative_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/ulps_all_each_vector5_f64", "f64", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_ulps_all_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_ulps_all_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/ulps_each_vector5_f64", "f64", 4, "u8", 5, "uf", |i, o| unsafe { l_C23_ulps_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C23_ulps_each_vector5_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 5])) }),
    ("C23/abs_diff_all_point1_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_point1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_point1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_point1_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_point1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_point1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_point1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_point1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_point1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_point1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_point1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_point2_f64", "f64", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_point2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_point2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_point2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_point2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_point2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_point2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_point2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_point2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_point2_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_point2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_point2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_point2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_point2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_point2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_point2_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_point2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_point2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_point3_f64", "f64", 7, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_point3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_point3_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_point3_f64", "f64", 9, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_point3_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_point3_f64(&*(i as *const [f64; 9]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_point3_f64", "f64", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_point3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_all_each_point3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_each_point3_f64", "f64", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_each_point3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_each_point3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_all_each_point3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_all_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_all_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_each_point3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_all_each_point3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_all_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_all_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_each_point3_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_each_point3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/abs_diff_all_matrix1x1_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_matrix1x1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_matrix1x1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_matrix1x1_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_matrix1x1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_matrix1x1_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_matrix1x1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_matrix1x1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_matrix1x1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_matrix1x1_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_matrix1x1_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_matrix2x2_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix2x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix2x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_each_matrix2x2_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix2x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix2x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_all_each_matrix2x2_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_all_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_each_matrix2x2_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_all_each_matrix2x2_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_each_matrix2x2_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_each_matrix2x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_matrix1x2_f64", "f64", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_matrix1x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_matrix1x2_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_matrix1x2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_matrix1x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_matrix1x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_matrix1x2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_matrix1x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_matrix1x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_matrix1x2_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_matrix1x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_matrix1x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_matrix1x2_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_matrix1x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_matrix1x2_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_matrix1x2_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_matrix1x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_matrix1x2_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_matrix3x2_f64", "f64", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix3x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix3x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_each_matrix3x2_f64", "f64", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix3x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix3x2_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_all_each_matrix3x2_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_all_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_each_matrix3x2_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_all_each_matrix3x2_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_each_matrix3x2_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_each_matrix3x2_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_all_each_matrix2x3_f64", "f64", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix2x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix2x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_each_matrix2x3_f64", "f64", 3, "u8", 6, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix2x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix2x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_all_each_matrix2x3_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_all_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/relative_each_matrix2x3_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_relative_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_relative_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_all_each_matrix2x3_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/ulps_each_matrix2x3_f64", "f64", 4, "u8", 6, "uf", |i, o| unsafe { l_C23_ulps_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }, |i, o| unsafe { r_C23_ulps_each_matrix2x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 6])) }),
    ("C23/abs_diff_all_each_matrix3x3_f64", "f64", 3, "u8", 9, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix3x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix3x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 9])) }),
    ("C23/abs_diff_each_matrix3x3_f64", "f64", 3, "u8", 9, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix3x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix3x3_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 9])) }),
    ("C23/relative_all_each_matrix3x3_f64", "f64", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_relative_all_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/relative_each_matrix3x3_f64", "f64", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_relative_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_relative_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/ulps_all_each_matrix3x3_f64", "f64", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/ulps_each_matrix3x3_f64", "f64", 4, "u8", 9, "uf", |i, o| unsafe { l_C23_ulps_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }, |i, o| unsafe { r_C23_ulps_each_matrix3x3_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 9])) }),
    ("C23/abs_diff_all_each_matrix4x4_f64", "f64", 3, "u8", 16, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_matrix4x4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_abs_diff_all_each_matrix4x4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 16])) }),
    ("C23/abs_diff_each_matrix4x4_f64", "f64", 3, "u8", 16, "uf", |i, o| unsafe { l_C23_abs_diff_each_matrix4x4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_abs_diff_each_matrix4x4_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 16])) }),
    ("C23/relative_all_each_matrix4x4_f64", "f64", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_relative_all_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_relative_all_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/relative_each_matrix4x4_f64", "f64", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_relative_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_relative_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/ulps_all_each_matrix4x4_f64", "f64", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_ulps_all_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_ulps_all_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/ulps_each_matrix4x4_f64", "f64", 4, "u8", 16, "uf", |i, o| unsafe { l_C23_ulps_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }, |i, o| unsafe { r_C23_ulps_each_matrix4x4_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 16])) }),
    ("C23/abs_diff_all_each_quaternion_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_quaternion_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_all_each_quaternion_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_each_quaternion_f64", "f64", 3, "u8", 4, "uf", |i, o| unsafe { l_C23_abs_diff_each_quaternion_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_abs_diff_each_quaternion_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_all_each_quaternion_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_all_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_all_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/relative_each_quaternion_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_relative_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_relative_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_all_each_quaternion_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_all_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_all_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/ulps_each_quaternion_f64", "f64", 4, "u8", 4, "uf", |i, o| unsafe { l_C23_ulps_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }, |i, o| unsafe { r_C23_ulps_each_quaternion_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 4])) }),
    ("C23/abs_diff_all_complex_f64", "f64", 5, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_complex_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_complex_f64(&*(i as *const [f64; 5]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_complex_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_complex_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_complex_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_complex_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_complex_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_complex_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_complex_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_complex_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_complex_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_complex_f64", "f64", 6, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_complex_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_complex_f64(&*(i as *const [f64; 6]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_complex_f64", "f64", 8, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_complex_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_complex_f64(&*(i as *const [f64; 8]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_radians_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_radians_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_radians_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_radians_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_radians_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_radians_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_radians_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_radians_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_radians_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_degrees_f64", "f64", 3, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_degrees_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_degrees_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 2])) }),
    ("C23/relative_all_degrees_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_relative_all_degrees_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_relative_all_degrees_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/ulps_all_degrees_f64", "f64", 4, "u8", 2, "uf", |i, o| unsafe { l_C23_ulps_all_degrees_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_ulps_all_degrees_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_euler_f64", "f64", 7, "u8", 2, "uf", |i, o| unsafe { l_C23_abs_diff_all_euler_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [u8; 2])) }, |i, o| unsafe { r_C23_abs_diff_all_euler_f64(&*(i as *const [f64; 7]), &mut *(o as *mut [u8; 2])) }),
    ("C23/abs_diff_all_each_euler_f64", "f64", 3, "u8", 3, "uf", |i, o| unsafe { l_C23_abs_diff_all_each_euler_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_abs_diff_all_each_euler_f64(&*(i as *const [f64; 3]), &mut *(o as *mut [u8; 3])) }),
    ("C23/relative_all_each_euler_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_relative_all_each_euler_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_relative_all_each_euler_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C23/ulps_all_each_euler_f64", "f64", 4, "u8", 3, "uf", |i, o| unsafe { l_C23_ulps_all_each_euler_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C23_ulps_all_each_euler_f64(&*(i as *const [f64; 4]), &mut *(o as *mut [u8; 3])) }),
    ("C16/arg_f32", "f32", 2, "f32", 3, "uf", |i, o| unsafe { l_C16_arg_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C16_arg_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C16/arg_f64", "f64", 2, "f64", 3, "uf", |i, o| unsafe { l_C16_arg_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C16_arg_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C17/add_radians_i32", "i32", 2, "i32", 5, "all", |i, o| unsafe { l_C17_add_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }, |i, o| unsafe { r_C17_add_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }),
    ("C17/sub_radians_i32", "i32", 2, "i32", 5, "all", |i, o| unsafe { l_C17_sub_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }, |i, o| unsafe { r_C17_sub_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }),
    ("C17/mul_radians_i32", "i32", 2, "i32", 3, "all", |i, o| unsafe { l_C17_mul_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C17_mul_radians_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C17/neg_radians_i32", "i32", 1, "i32", 2, "all", |i, o| unsafe { l_C17_neg_radians_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C17_neg_radians_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }),
    ("C17/add_degrees_i32", "i32", 2, "i32", 5, "all", |i, o| unsafe { l_C17_add_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }, |i, o| unsafe { r_C17_add_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }),
    ("C17/sub_degrees_i32", "i32", 2, "i32", 5, "all", |i, o| unsafe { l_C17_sub_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }, |i, o| unsafe { r_C17_sub_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 5])) }),
    ("C17/mul_degrees_i32", "i32", 2, "i32", 3, "all", |i, o| unsafe { l_C17_mul_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }, |i, o| unsafe { r_C17_mul_degrees_i32(&*(i as *const [i32; 2]), &mut *(o as *mut [i32; 3])) }),
    ("C17/neg_degrees_i32", "i32", 1, "i32", 2, "all", |i, o| unsafe { l_C17_neg_degrees_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }, |i, o| unsafe { r_C17_neg_degrees_i32(&*(i as *const [i32; 1]), &mut *(o as *mut [i32; 2])) }),
    ("C17/add_radians_u8", "u8", 2, "u8", 5, "all", |i, o| unsafe { l_C17_add_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C17_add_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }),
    ("C17/sub_radians_u8", "u8", 2, "u8", 5, "all", |i, o| unsafe { l_C17_sub_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C17_sub_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }),
    ("C17/mul_radians_u8", "u8", 2, "u8", 3, "all", |i, o| unsafe { l_C17_mul_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C17_mul_radians_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C17/add_degrees_u8", "u8", 2, "u8", 5, "all", |i, o| unsafe { l_C17_add_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C17_add_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }),
    ("C17/sub_degrees_u8", "u8", 2, "u8", 5, "all", |i, o| unsafe { l_C17_sub_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }, |i, o| unsafe { r_C17_sub_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 5])) }),
    ("C17/mul_degrees_u8", "u8", 2, "u8", 3, "all", |i, o| unsafe { l_C17_mul_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }, |i, o| unsafe { r_C17_mul_degrees_u8(&*(i as *const [u8; 2]), &mut *(o as *mut [u8; 3])) }),
    ("C17/add_radians_f32", "f32", 2, "f32", 5, "all", |i, o| unsafe { l_C17_add_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C17_add_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C17/sub_radians_f32", "f32", 2, "f32", 5, "all", |i, o| unsafe { l_C17_sub_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C17_sub_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C17/mul_radians_f32", "f32", 2, "f32", 3, "all", |i, o| unsafe { l_C17_mul_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C17_mul_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C17/div_radians_f32", "f32", 2, "f32", 7, "uf", |i, o| unsafe { l_C17_div_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 7])) }, |i, o| unsafe { r_C17_div_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 7])) }),
    ("C17/rem_radians_f32", "f32", 2, "f32", 5, "all", |i, o| unsafe { l_C17_rem_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C17_rem_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C17/neg_radians_f32", "f32", 1, "f32", 2, "all", |i, o| unsafe { l_C17_neg_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C17_neg_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C17/add_degrees_f32", "f32", 2, "f32", 5, "all", |i, o| unsafe { l_C17_add_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C17_add_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C17/sub_degrees_f32", "f32", 2, "f32", 5, "all", |i, o| unsafe { l_C17_sub_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C17_sub_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C17/mul_degrees_f32", "f32", 2, "f32", 3, "all", |i, o| unsafe { l_C17_mul_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }, |i, o| unsafe { r_C17_mul_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 3])) }),
    ("C17/div_degrees_f32", "f32", 2, "f32", 7, "uf", |i, o| unsafe { l_C17_div_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 7])) }, |i, o| unsafe { r_C17_div_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 7])) }),
    ("C17/rem_degrees_f32", "f32", 2, "f32", 5, "all", |i, o| unsafe { l_C17_rem_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }, |i, o| unsafe { r_C17_rem_degrees_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 5])) }),
    ("C17/neg_degrees_f32", "f32", 1, "f32", 2, "all", |i, o| unsafe { l_C17_neg_degrees_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C17_neg_degrees_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C17/sin_radians_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C17_sin_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_sin_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C17/cos_radians_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C17_cos_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_cos_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C17/tan_radians_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C17_tan_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_tan_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C17/asin_radians_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C17_asin_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_asin_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C17/acos_radians_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C17_acos_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_acos_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C17/atan_radians_f32", "f32", 1, "f32", 1, "uf", |i, o| unsafe { l_C17_atan_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_atan_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 1])) }),
    ("C17/atan2_radians_f32", "f32", 2, "f32", 1, "all", |i, o| unsafe { l_C17_atan2_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }, |i, o| unsafe { r_C17_atan2_radians_f32(&*(i as *const [f32; 2]), &mut *(o as *mut [f32; 1])) }),
    ("C17/sin_cos_radians_f32", "f32", 1, "f32", 2, "uf", |i, o| unsafe { l_C17_sin_cos_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }, |i, o| unsafe { r_C17_sin_cos_radians_f32(&*(i as *const [f32; 1]), &mut *(o as *mut [f32; 2])) }),
    ("C17/add_radians_f64", "f64", 2, "f64", 5, "all", |i, o| unsafe { l_C17_add_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C17_add_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C17/sub_radians_f64", "f64", 2, "f64", 5, "all", |i, o| unsafe { l_C17_sub_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C17_sub_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C17/mul_radians_f64", "f64", 2, "f64", 3, "all", |i, o| unsafe { l_C17_mul_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C17_mul_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C17/div_radians_f64", "f64", 2, "f64", 7, "uf", |i, o| unsafe { l_C17_div_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 7])) }, |i, o| unsafe { r_C17_div_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 7])) }),
    ("C17/rem_radians_f64", "f64", 2, "f64", 5, "all", |i, o| unsafe { l_C17_rem_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C17_rem_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C17/neg_radians_f64", "f64", 1, "f64", 2, "all", |i, o| unsafe { l_C17_neg_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C17_neg_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
    ("C17/add_degrees_f64", "f64", 2, "f64", 5, "all", |i, o| unsafe { l_C17_add_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C17_add_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C17/sub_degrees_f64", "f64", 2, "f64", 5, "all", |i, o| unsafe { l_C17_sub_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C17_sub_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C17/mul_degrees_f64", "f64", 2, "f64", 3, "all", |i, o| unsafe { l_C17_mul_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }, |i, o| unsafe { r_C17_mul_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 3])) }),
    ("C17/div_degrees_f64", "f64", 2, "f64", 7, "uf", |i, o| unsafe { l_C17_div_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 7])) }, |i, o| unsafe { r_C17_div_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 7])) }),
    ("C17/rem_degrees_f64", "f64", 2, "f64", 5, "all", |i, o| unsafe { l_C17_rem_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }, |i, o| unsafe { r_C17_rem_degrees_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 5])) }),
    ("C17/neg_degrees_f64", "f64", 1, "f64", 2, "all", |i, o| unsafe { l_C17_neg_degrees_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C17_neg_degrees_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
    ("C17/sin_radians_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C17_sin_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_sin_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C17/cos_radians_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C17_cos_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_cos_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C17/tan_radians_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C17_tan_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_tan_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C17/asin_radians_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C17_asin_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_asin_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C17/acos_radians_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C17_acos_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_acos_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C17/atan_radians_f64", "f64", 1, "f64", 1, "uf", |i, o| unsafe { l_C17_atan_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_atan_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 1])) }),
    ("C17/atan2_radians_f64", "f64", 2, "f64", 1, "all", |i, o| unsafe { l_C17_atan2_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }, |i, o| unsafe { r_C17_atan2_radians_f64(&*(i as *const [f64; 2]), &mut *(o as *mut [f64; 1])) }),
    ("C17/sin_cos_radians_f64", "f64", 1, "f64", 2, "uf", |i, o| unsafe { l_C17_sin_cos_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }, |i, o| unsafe { r_C17_sin_cos_radians_f64(&*(i as *const [f64; 1]), &mut *(o as *mut [f64; 2])) }),
];
