---- MODULE Tables ----
(* Constants of GOST R 34.11-2012 and GOST R 34.12-2015 (generated once by tools/gen_tables.py). *)
\* Nonlinear bijection pi (shared by Streebog and Kuznyechik); Pi[x + 1] = pi(x).
Pi == <<252, 238, 221, 17, 207, 110, 49, 22, 251, 196, 250, 218, 35, 197, 4, 77, 233, 119, 240, 219,
    147, 46, 153, 186, 23, 54, 241, 187, 20, 205, 95, 193, 249, 24, 101, 90, 226, 92, 239, 33, 129,
    28, 60, 66, 139, 1, 142, 79, 5, 132, 2, 174, 227, 106, 143, 160, 6, 11, 237, 152, 127, 212, 211,
    31, 235, 52, 44, 81, 234, 200, 72, 171, 242, 42, 104, 162, 253, 58, 206, 204, 181, 112, 14, 86,
    8, 12, 118, 18, 191, 114, 19, 71, 156, 183, 93, 135, 21, 161, 150, 41, 16, 123, 154, 199, 243,
    145, 120, 111, 157, 158, 178, 177, 50, 117, 25, 61, 255, 53, 138, 126, 109, 84, 198, 128, 195,
    189, 13, 87, 223, 245, 36, 169, 62, 168, 67, 201, 215, 121, 214, 246, 124, 34, 185, 3, 224, 15,
    236, 222, 122, 148, 176, 188, 220, 232, 40, 80, 78, 51, 10, 74, 167, 151, 96, 115, 30, 0, 98,
    68, 26, 184, 56, 130, 100, 159, 38, 65, 173, 69, 70, 146, 39, 94, 85, 47, 140, 163, 165, 125,
    105, 213, 149, 59, 7, 88, 179, 64, 134, 172, 29, 247, 48, 55, 107, 228, 136, 217, 231, 137, 225,
    27, 131, 73, 76, 63, 248, 254, 141, 83, 170, 144, 202, 216, 133, 97, 32, 113, 103, 164, 45, 43,
    9, 91, 203, 155, 37, 208, 190, 229, 108, 82, 89, 166, 116, 210, 230, 244, 180, 192, 209, 102,
    175, 194, 57, 75, 99, 182>>
\* Rows of the matrix A of the linear transformation l, most significant byte first.
MatA == <<
  <<142, 32, 250, 167, 43, 160, 180, 112>>,
  <<71, 16, 125, 221, 155, 80, 90, 56>>,
  <<173, 8, 176, 224, 195, 40, 45, 28>>,
  <<216, 4, 88, 112, 239, 20, 152, 14>>,
  <<108, 2, 44, 56, 249, 10, 76, 7>>,
  <<54, 1, 22, 28, 242, 5, 38, 141>>,
  <<27, 142, 11, 14, 121, 140, 19, 200>>,
  <<131, 71, 139, 7, 178, 70, 135, 100>>,
  <<160, 17, 211, 128, 129, 142, 143, 64>>,
  <<80, 134, 231, 64, 206, 71, 201, 32>>,
  <<40, 67, 253, 32, 103, 173, 234, 16>>,
  <<20, 175, 240, 16, 189, 216, 117, 8>>,
  <<10, 217, 120, 8, 208, 108, 180, 4>>,
  <<5, 226, 60, 4, 104, 54, 90, 2>>,
  <<140, 113, 30, 2, 52, 27, 45, 1>>,
  <<70, 182, 15, 1, 26, 131, 152, 142>>,
  <<144, 218, 181, 42, 56, 122, 231, 111>>,
  <<72, 109, 212, 21, 28, 61, 253, 185>>,
  <<36, 184, 106, 132, 14, 144, 240, 210>>,
  <<18, 92, 53, 66, 7, 72, 120, 105>>,
  <<9, 46, 148, 33, 141, 36, 60, 186>>,
  <<138, 23, 74, 158, 200, 18, 30, 93>>,
  <<69, 133, 37, 79, 100, 9, 15, 160>>,
  <<172, 204, 156, 169, 50, 138, 137, 80>>,
  <<157, 77, 240, 93, 95, 102, 20, 81>>,
  <<192, 168, 120, 160, 161, 51, 10, 166>>,
  <<96, 84, 60, 80, 222, 151, 5, 83>>,
  <<48, 42, 30, 40, 111, 197, 140, 167>>,
  <<24, 21, 15, 20, 185, 236, 70, 221>>,
  <<12, 132, 137, 10, 210, 118, 35, 224>>,
  <<6, 66, 202, 5, 105, 59, 159, 112>>,
  <<3, 33, 101, 140, 186, 147, 193, 56>>,
  <<134, 39, 93, 240, 156, 232, 170, 168>>,
  <<67, 157, 160, 120, 78, 116, 85, 84>>,
  <<175, 192, 80, 60, 39, 58, 164, 42>>,
  <<217, 96, 40, 30, 157, 29, 82, 21>>,
  <<226, 48, 20, 15, 192, 128, 41, 132>>,
  <<113, 24, 10, 137, 96, 64, 154, 66>>,
  <<182, 12, 5, 202, 48, 32, 77, 33>>,
  <<91, 6, 140, 101, 24, 16, 168, 158>>,
  <<69, 108, 52, 136, 122, 56, 5, 185>>,
  <<172, 54, 26, 68, 61, 28, 140, 210>>,
  <<86, 27, 13, 34, 144, 14, 70, 105>>,
  <<43, 131, 136, 17, 72, 7, 35, 186>>,
  <<155, 207, 68, 134, 36, 141, 159, 93>>,
  <<195, 233, 34, 67, 18, 200, 193, 160>>,
  <<239, 250, 17, 175, 9, 100, 238, 80>>,
  <<249, 125, 134, 217, 138, 50, 119, 40>>,
  <<228, 250, 32, 84, 168, 11, 50, 156>>,
  <<114, 125, 16, 42, 84, 139, 25, 78>>,
  <<57, 176, 8, 21, 42, 203, 130, 39>>,
  <<146, 88, 4, 132, 21, 235, 65, 157>>,
  <<73, 44, 2, 66, 132, 251, 174, 192>>,
  <<170, 22, 1, 33, 66, 243, 87, 96>>,
  <<85, 11, 142, 158, 33, 247, 165, 48>>,
  <<164, 139, 71, 79, 158, 245, 220, 24>>,
  <<112, 166, 165, 110, 36, 64, 89, 142>>,
  <<56, 83, 220, 55, 18, 32, 162, 71>>,
  <<28, 167, 110, 149, 9, 16, 81, 173>>,
  <<14, 221, 55, 196, 138, 8, 166, 216>>,
  <<7, 224, 149, 98, 69, 4, 83, 108>>,
  <<141, 112, 196, 49, 172, 2, 167, 54>>,
  <<200, 56, 98, 150, 86, 1, 221, 27>>,
  <<100, 28, 49, 75, 43, 142, 224, 131>>>>
\* Round constants C_1..C_12, least significant byte first.
RC == <<
  <<7, 69, 166, 242, 89, 101, 128, 221, 35, 77, 116, 204, 54, 116, 118, 5, 21, 211, 96, 164, 8, 42,
    66, 162, 1, 105, 103, 146, 145, 224, 124, 75, 252, 196, 133, 117, 141, 184, 78, 113, 22, 208,
    69, 46, 67, 118, 106, 47, 31, 124, 101, 192, 129, 47, 203, 235, 233, 218, 202, 30, 218, 91, 8,
    177>>,
  <<183, 155, 177, 33, 112, 4, 121, 230, 86, 205, 203, 215, 27, 162, 221, 85, 202, 167, 10, 219,
    194, 97, 181, 92, 88, 153, 214, 18, 107, 23, 181, 154, 49, 1, 181, 22, 15, 94, 213, 97, 152, 43,
    35, 10, 114, 234, 254, 243, 215, 181, 112, 15, 70, 157, 227, 79, 26, 47, 157, 169, 138, 181,
    163, 111>>,
  <<178, 10, 186, 10, 245, 150, 30, 153, 49, 219, 122, 134, 67, 244, 182, 194, 9, 219, 98, 96, 55,
    58, 201, 193, 177, 158, 53, 144, 228, 15, 226, 211, 123, 123, 41, 177, 20, 117, 234, 242, 139,
    31, 156, 82, 95, 94, 241, 6, 53, 132, 61, 106, 40, 252, 57, 10, 199, 47, 206, 43, 172, 220, 116,
    245>>,
  <<46, 209, 227, 132, 188, 190, 12, 34, 241, 55, 232, 147, 161, 234, 83, 52, 190, 3, 82, 147, 51,
    19, 183, 216, 117, 214, 3, 237, 130, 44, 215, 169, 63, 53, 94, 104, 173, 28, 114, 157, 125, 60,
    92, 51, 126, 133, 142, 72, 221, 228, 113, 93, 160, 225, 72, 249, 210, 102, 21, 232, 179, 223,
    31, 239>>,
  <<87, 254, 108, 124, 253, 88, 23, 96, 245, 99, 234, 169, 126, 162, 86, 122, 22, 26, 39, 35, 183,
    0, 255, 223, 163, 245, 58, 37, 71, 23, 205, 191, 189, 255, 15, 128, 215, 53, 158, 53, 74, 16,
    134, 22, 31, 28, 21, 127, 99, 35, 169, 108, 12, 65, 63, 154, 153, 71, 71, 173, 172, 107, 234,
    75>>,
  <<110, 125, 100, 70, 122, 64, 104, 250, 53, 79, 144, 54, 114, 197, 113, 191, 182, 198, 190, 194,
    102, 31, 242, 10, 180, 183, 154, 28, 183, 166, 250, 207, 198, 142, 240, 154, 180, 154, 127, 24,
    108, 164, 66, 81, 249, 196, 102, 45, 192, 57, 48, 122, 59, 195, 164, 111, 217, 211, 58, 29, 174,
    174, 79, 174>>,
  <<147, 212, 20, 58, 77, 86, 134, 136, 243, 74, 60, 162, 76, 69, 23, 53, 4, 5, 74, 40, 131, 105,
    71, 6, 55, 44, 130, 45, 197, 171, 146, 9, 201, 147, 122, 25, 51, 62, 71, 211, 201, 135, 191,
    230, 199, 198, 158, 57, 84, 9, 36, 191, 254, 134, 172, 81, 236, 197, 170, 238, 22, 14, 199,
    244>>,
  <<30, 231, 2, 191, 212, 13, 127, 164, 217, 168, 81, 89, 53, 194, 172, 54, 47, 196, 165, 209, 43,
    141, 209, 105, 144, 6, 155, 146, 203, 43, 137, 244, 154, 196, 219, 77, 59, 68, 180, 137, 30,
    222, 54, 156, 113, 248, 183, 78, 65, 65, 110, 12, 2, 170, 231, 3, 167, 201, 147, 77, 66, 91, 31,
    155>>,
  <<219, 90, 35, 131, 81, 68, 97, 114, 96, 42, 31, 203, 146, 220, 56, 14, 84, 156, 7, 166, 154, 138,
    43, 123, 177, 206, 178, 219, 11, 68, 10, 128, 132, 9, 13, 224, 183, 85, 217, 60, 36, 66, 137,
    37, 27, 58, 125, 58, 222, 95, 22, 236, 216, 154, 76, 148, 155, 34, 49, 22, 84, 90, 143, 55>>,
  <<237, 156, 69, 152, 251, 199, 180, 116, 195, 182, 59, 21, 209, 250, 152, 54, 244, 82, 118, 59,
    48, 108, 30, 122, 75, 51, 105, 175, 2, 103, 231, 159, 3, 97, 51, 27, 138, 225, 255, 31, 219,
    120, 138, 255, 28, 231, 65, 137, 243, 243, 228, 178, 72, 229, 42, 56, 82, 111, 5, 128, 166, 222,
    190, 171>>,
  <<27, 45, 243, 129, 205, 164, 202, 107, 93, 216, 111, 192, 74, 89, 162, 222, 152, 110, 71, 125,
    29, 205, 186, 239, 202, 185, 72, 234, 239, 113, 29, 138, 121, 102, 132, 20, 33, 128, 1, 32, 97,
    7, 171, 235, 187, 107, 250, 216, 148, 254, 90, 99, 205, 198, 2, 48, 251, 137, 200, 239, 208,
    158, 205, 123>>,
  <<32, 215, 27, 241, 74, 146, 188, 72, 153, 27, 178, 217, 213, 23, 244, 250, 82, 40, 225, 136, 170,
    164, 29, 231, 134, 204, 145, 24, 157, 239, 128, 93, 155, 159, 33, 48, 212, 18, 32, 248, 119, 29,
    223, 188, 50, 60, 164, 205, 122, 177, 73, 4, 176, 128, 19, 210, 186, 49, 22, 241, 103, 231, 142,
    55>>>>
\* Coefficients of the Kuznyechik linear form l(a_15, ..., a_0).
KuzCoef == <<148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1>>
\* Magma substitutions pi_0 .. pi_7.
MagmaPi == <<
  <<12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1>>,
  <<6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15>>,
  <<11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0>>,
  <<12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11>>,
  <<7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12>>,
  <<5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0>>,
  <<8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7>>,
  <<1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2>>>>
====
