------------------------------ MODULE CurveTab ------------------------------
(* Parameter sets of R 1323565.1.024-2019 (generated once by tools/gen_curves.py, which    *)
(* validates them).  Numbers as minimal big-endian byte strings (BigNat).                  *)
CurveTab == <<
  [name |-> "id-tc26-gost-3410-2012-256-paramSetB", size |-> 32, par |-> [a |-> <<255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 253, 148>>, b |-> <<166>>, m |-> <<255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 108, 97, 16, 112, 153, 90, 209, 0,
      69, 132, 27, 9, 183, 97, 184, 147>>, p |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 253, 151>>, q |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 108, 97, 16, 112, 153, 90, 209, 0, 69, 132, 27, 9, 183, 97, 184, 147>>, x |-> <<1>>,
      y |-> <<141, 145, 228, 113, 224, 152, 156, 218, 39, 223, 80, 90, 69, 63, 43, 118, 53, 41, 79,
      45, 223, 35, 227, 177, 34, 172, 201, 156, 158, 159, 30, 20>>]],
  [name |-> "id-tc26-gost-3410-2012-256-paramSetC", size |-> 32, par |-> [a |-> <<128, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 150>>, b |->
      <<62, 26, 244, 25, 162, 105, 165, 248, 102, 167, 211, 194, 92, 61, 248, 10, 233, 121, 37, 147,
      115, 255, 43, 24, 47, 73, 212, 206, 126, 27, 188, 139>>, m |-> <<128, 0, 0, 0, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 0, 1, 95, 112, 12, 255, 241, 166, 36, 229, 228, 151, 22, 27, 204, 138, 25,
      143>>, p |-> <<128, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 12, 153>>, q |-> <<128, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 95, 112, 12,
      255, 241, 166, 36, 229, 228, 151, 22, 27, 204, 138, 25, 143>>, x |-> <<1>>, y |-> <<63, 168,
      18, 67, 89, 249, 102, 128, 184, 61, 28, 62, 178, 192, 112, 229, 197, 69, 201, 133, 141, 3,
      236, 251, 116, 75, 248, 215, 23, 113, 126, 252>>]],
  [name |-> "id-tc26-gost-3410-2012-256-paramSetD", size |-> 32, par |-> [a |-> <<155, 159, 96, 95,
      90, 133, 129, 7, 171, 30, 200, 94, 107, 65, 200, 170, 207, 132, 110, 134, 120, 144, 81, 211,
      121, 152, 247, 185, 2, 45, 117, 152>>, b |-> <<128, 90>>, m |-> <<155, 159, 96, 95, 90, 133,
      129, 7, 171, 30, 200, 94, 107, 65, 200, 170, 88, 44, 163, 81, 30, 221, 251, 116, 240, 47, 58,
      101, 152, 152, 11, 185>>, p |-> <<155, 159, 96, 95, 90, 133, 129, 7, 171, 30, 200, 94, 107,
      65, 200, 170, 207, 132, 110, 134, 120, 144, 81, 211, 121, 152, 247, 185, 2, 45, 117, 155>>, q
      |-> <<155, 159, 96, 95, 90, 133, 129, 7, 171, 30, 200, 94, 107, 65, 200, 170, 88, 44, 163, 81,
      30, 221, 251, 116, 240, 47, 58, 101, 152, 152, 11, 185>>, x |-> <<>>, y |-> <<65, 236, 229,
      87, 67, 113, 26, 140, 60, 191, 55, 131, 205, 8, 192, 238, 77, 77, 196, 64, 212, 100, 26, 143,
      54, 110, 85, 13, 253, 179, 187, 103>>]],
  [name |-> "id-tc26-gost-3410-12-512-paramSetA", size |-> 64, par |-> [a |-> <<255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 253, 196>>, b |-> <<232, 194, 80, 93, 237, 252, 134, 221, 193, 189, 11, 43, 102, 103,
      241, 218, 52, 184, 37, 116, 118, 28, 176, 232, 121, 189, 8, 28, 253, 11, 98, 101, 238, 60,
      176, 144, 243, 13, 39, 97, 76, 180, 87, 64, 16, 218, 144, 221, 134, 46, 249, 212, 235, 238,
      71, 97, 80, 49, 144, 120, 90, 113, 199, 96>>, m |-> <<255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 39, 230, 149, 50, 244, 141, 137, 17, 111, 242, 43, 141, 78, 5, 96,
      96, 155, 75, 56, 171, 250, 210, 184, 93, 202, 205, 177, 65, 31, 16, 178, 117>>, p |-> <<255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 253, 199>>, q |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 39, 230, 149, 50, 244, 141, 137, 17, 111, 242, 43, 141, 78, 5, 96, 96, 155, 75, 56,
      171, 250, 210, 184, 93, 202, 205, 177, 65, 31, 16, 178, 117>>, x |-> <<3>>, y |-> <<117, 3,
      207, 232, 122, 131, 106, 227, 166, 27, 136, 22, 226, 84, 80, 230, 206, 94, 28, 147, 172, 241,
      171, 193, 119, 128, 100, 253, 203, 239, 169, 33, 223, 22, 38, 190, 79, 208, 54, 233, 61, 117,
      230, 165, 14, 58, 65, 233, 128, 40, 254, 95, 194, 53, 245, 184, 137, 165, 137, 203, 82, 21,
      242, 164>>]],
  [name |-> "id-tc26-gost-3410-12-512-paramSetB", size |-> 64, par |-> [a |-> <<128, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 108>>, b |->
      <<104, 125, 27, 69, 157, 200, 65, 69, 126, 62, 6, 207, 111, 94, 37, 23, 185, 124, 125, 97, 74,
      241, 56, 188, 191, 133, 220, 128, 108, 75, 40, 159, 62, 150, 93, 45, 177, 65, 109, 33, 127,
      139, 39, 111, 173, 26, 182, 156, 80, 247, 139, 238, 31, 163, 16, 110, 251, 140, 203, 199, 197,
      20, 1, 22>>, m |-> <<128, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 0, 0, 1, 73, 161, 236, 20, 37, 101, 165, 69, 172, 253, 183, 123, 217, 212, 12,
      250, 139, 153, 103, 18, 16, 27, 234, 14, 198, 52, 108, 84, 55, 79, 37, 189>>, p |-> <<128, 0,
      0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
      111>>, q |-> <<128, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
      0, 0, 0, 0, 0, 1, 73, 161, 236, 20, 37, 101, 165, 69, 172, 253, 183, 123, 217, 212, 12, 250,
      139, 153, 103, 18, 16, 27, 234, 14, 198, 52, 108, 84, 55, 79, 37, 189>>, x |-> <<2>>, y |->
      <<26, 143, 126, 218, 56, 155, 9, 76, 44, 7, 30, 54, 71, 168, 148, 15, 60, 18, 59, 105, 117,
      120, 194, 19, 190, 109, 217, 230, 200, 236, 115, 53, 220, 178, 40, 253, 30, 223, 74, 57, 21,
      44, 188, 170, 248, 192, 57, 136, 40, 4, 16, 85, 249, 76, 238, 236, 126, 33, 52, 7, 128, 254,
      65, 189>>]],
  [name |-> "id-tc26-gost-3410-2012-256-paramSetA", size |-> 32, par |-> [a |-> <<194, 23, 63, 21,
      19, 152, 22, 115, 175, 72, 146, 194, 48, 53, 162, 124, 226, 94, 32, 19, 191, 149, 170, 51,
      178, 44, 101, 111, 39, 126, 115, 53>>, b |-> <<41, 95, 155, 174, 116, 40, 237, 156, 204, 32,
      231, 195, 89, 169, 212, 26, 34, 252, 205, 145, 8, 225, 123, 247, 186, 147, 55, 166, 248, 174,
      149, 19>>, d |-> <<6, 5, 246, 183, 193, 131, 250, 129, 87, 139, 195, 156, 250, 213, 24, 19,
      43, 157, 246, 40, 151, 0, 154, 247, 229, 34, 195, 45, 109, 199, 191, 251>>, e |-> <<1>>, m |->
      <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 63, 99, 55, 127, 33, 237, 152, 215, 4,
      86, 189, 85, 176, 216, 49, 156>>, p |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 253, 151>>, q |-> <<64, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 15, 216, 205, 223,
      200, 123, 102, 53, 193, 21, 175, 85, 108, 54, 12, 103>>, u |-> <<13>>, v |-> <<96, 202, 30,
      50, 170, 71, 91, 52, 132, 136, 195, 143, 171, 7, 100, 156, 231, 239, 141, 190, 135, 242, 46,
      129, 249, 43, 37, 146, 219, 163, 0, 231>>, x |-> <<145, 227, 132, 67, 165, 232, 44, 13, 136,
      9, 35, 66, 87, 18, 178, 187, 101, 139, 145, 150, 147, 46, 2, 199, 139, 37, 130, 254, 116, 45,
      170, 40>>, y |-> <<50, 135, 148, 35, 171, 26, 3, 117, 137, 87, 134, 196, 187, 70, 233, 86, 95,
      222, 11, 83, 68, 118, 103, 64, 175, 38, 138, 219, 50, 50, 46, 92>>]],
  [name |-> "id-tc26-gost-3410-2012-512-paramSetC", size |-> 64, par |-> [a |-> <<220, 146, 3, 229,
      20, 167, 33, 135, 84, 133, 165, 41, 210, 199, 34, 251, 24, 123, 200, 152, 14, 184, 102, 100,
      77, 228, 28, 104, 225, 67, 6, 69, 70, 232, 97, 192, 226, 201, 237, 217, 42, 222, 113, 244,
      111, 207, 80, 255, 42, 217, 127, 149, 31, 218, 159, 42, 46, 182, 84, 111, 57, 104, 155, 211>>,
      b |-> <<180, 196, 238, 40, 206, 188, 108, 44, 138, 193, 41, 82, 207, 55, 241, 106, 199, 239,
      182, 169, 246, 159, 75, 87, 255, 218, 46, 79, 13, 229, 173, 224, 56, 203, 194, 255, 247, 25,
      210, 193, 141, 224, 40, 75, 139, 254, 243, 181, 43, 140, 199, 165, 245, 191, 10, 60, 141, 35,
      25, 165, 49, 37, 87, 225>>, d |-> <<158, 79, 93, 140, 1, 125, 141, 159, 19, 165, 207, 60, 223,
      91, 254, 77, 171, 64, 45, 84, 25, 142, 49, 235, 222, 40, 160, 98, 16, 80, 67, 156, 166, 179,
      158, 10, 81, 92, 6, 179, 4, 226, 206, 67, 231, 158, 54, 158, 145, 160, 207, 194, 188, 42, 34,
      180, 202, 48, 45, 187, 51, 238, 117, 80>>, e |-> <<1>>, m |-> <<255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 38, 51, 110, 145, 148, 26, 172, 1, 48, 206, 167, 253, 69,
      29, 64, 179, 35, 182, 167, 158, 157, 166, 132, 154, 81, 136, 243, 189, 31, 192, 143, 180>>, p
      |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 253, 199>>, q |-> <<63, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
      255, 255, 255, 255, 255, 201, 140, 219, 164, 101, 6, 171, 0, 76, 51, 169, 255, 81, 71, 80, 44,
      200, 237, 169, 231, 167, 105, 161, 38, 148, 98, 60, 239, 71, 240, 35, 237>>, u |-> <<18>>, v
      |-> <<70, 154, 247, 157, 31, 177, 245, 225, 107, 153, 89, 43, 119, 160, 30, 42, 15, 223, 176,
      208, 23, 148, 54, 141, 154, 86, 17, 127, 123, 56, 102, 149, 34, 221, 75, 101, 12, 247, 137,
      238, 191, 6, 140, 93, 19, 151, 50, 240, 144, 86, 34, 192, 75, 43, 170, 231, 96, 3, 3, 238,
      115, 0, 26, 61>>, x |-> <<226, 227, 30, 223, 194, 61, 231, 189, 235, 226, 65, 206, 89, 62,
      245, 222, 34, 149, 183, 169, 203, 174, 240, 33, 211, 133, 247, 7, 76, 234, 4, 58, 162, 114,
      114, 167, 174, 96, 43, 242, 167, 185, 3, 61, 185, 237, 54, 16, 198, 251, 133, 72, 126, 174,
      151, 170, 197, 188, 121, 40, 193, 149, 1, 72>>, y |-> <<245, 206, 64, 217, 91, 94, 184, 153,
      171, 188, 207, 245, 145, 28, 184, 87, 121, 57, 128, 77, 101, 39, 55, 139, 140, 16, 140, 61,
      32, 144, 255, 155, 225, 142, 45, 51, 227, 2, 30, 210, 239, 50, 216, 88, 34, 66, 59, 99, 4,
      247, 38, 170, 133, 75, 174, 7, 208, 57, 110, 154, 154, 221, 196, 15>>]]>>
============================================================================
