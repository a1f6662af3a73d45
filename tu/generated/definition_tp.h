unsigned char definition_tp[] = {
  0x2f, 0x2f, 0x2f, 0x0a, 0x2f, 0x2f, 0x2f, 0x20, 0x50, 0x61, 0x72, 0x73,
  0x65, 0x72, 0x20, 0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x20,
  0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x0a, 0x2f,
  0x2f, 0x2f, 0x0a, 0x2f, 0x2f, 0x2f, 0x20, 0x43, 0x72, 0x65, 0x61, 0x74,
  0x65, 0x64, 0x20, 0x62, 0x79, 0x20, 0x41, 0x6e, 0x64, 0x72, 0x65, 0x77,
  0x20, 0x48, 0x75, 0x6e, 0x74, 0x65, 0x72, 0x20, 0x6f, 0x6e, 0x20, 0x32,
  0x31, 0x2f, 0x30, 0x35, 0x2f, 0x32, 0x30, 0x31, 0x31, 0x0a, 0x2f, 0x2f,
  0x2f, 0x0a, 0x0a, 0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x20,
  0x50, 0x61, 0x72, 0x73, 0x65, 0x72, 0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61,
  0x67, 0x65, 0x20, 0x7b, 0x0a, 0x09, 0x2f, 0x2f, 0x2f, 0x20, 0x53, 0x79,
  0x6d, 0x62, 0x6f, 0x6c, 0x73, 0x20, 0x75, 0x73, 0x65, 0x64, 0x20, 0x62,
  0x79, 0x20, 0x74, 0x68, 0x65, 0x20, 0x6c, 0x65, 0x78, 0x65, 0x72, 0x0a,
  0x09, 0x6c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x73, 0x79, 0x6d, 0x62, 0x6f,
  0x6c, 0x73, 0x20, 0x7b, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x20, 0x43, 0x6f,
  0x6d, 0x6d, 0x6f, 0x6e, 0x6c, 0x79, 0x20, 0x75, 0x73, 0x65, 0x64, 0x20,
  0x63, 0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65, 0x72, 0x20, 0x73, 0x65,
  0x74, 0x73, 0x0a, 0x09, 0x09, 0x6c, 0x65, 0x74, 0x74, 0x65, 0x72, 0x20,
  0x09, 0x09, 0x09, 0x3d, 0x20, 0x2f, 0x28, 0x7b, 0x75, 0x6e, 0x69, 0x63,
  0x6f, 0x64, 0x65, 0x2d, 0x6c, 0x65, 0x74, 0x74, 0x65, 0x72, 0x7d, 0x7c,
  0x7b, 0x75, 0x6e, 0x69, 0x63, 0x6f, 0x64, 0x65, 0x2d, 0x70, 0x75, 0x6e,
  0x63, 0x74, 0x75, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2d, 0x64, 0x61, 0x73,
  0x68, 0x7d, 0x7c, 0x7b, 0x75, 0x6e, 0x69, 0x63, 0x6f, 0x64, 0x65, 0x2d,
  0x70, 0x75, 0x6e, 0x63, 0x74, 0x75, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2d,
  0x63, 0x6f, 0x6e, 0x6e, 0x65, 0x63, 0x74, 0x6f, 0x72, 0x7d, 0x29, 0x2f,
  0x0a, 0x09, 0x09, 0x64, 0x69, 0x67, 0x69, 0x74, 0x20, 0x09, 0x09, 0x09,
  0x3d, 0x20, 0x2f, 0x7b, 0x75, 0x6e, 0x69, 0x63, 0x6f, 0x64, 0x65, 0x2d,
  0x6e, 0x75, 0x6d, 0x62, 0x65, 0x72, 0x7d, 0x2f, 0x0a, 0x09, 0x09, 0x61,
  0x6c, 0x70, 0x68, 0x61, 0x6e, 0x75, 0x6d, 0x65, 0x72, 0x69, 0x63, 0x20,
  0x09, 0x3d, 0x20, 0x2f, 0x28, 0x7b, 0x6c, 0x65, 0x74, 0x74, 0x65, 0x72,
  0x7d, 0x7c, 0x7b, 0x64, 0x69, 0x67, 0x69, 0x74, 0x7d, 0x29, 0x2f, 0x0a,
  0x09, 0x09, 0x77, 0x68, 0x69, 0x74, 0x65, 0x73, 0x70, 0x61, 0x63, 0x65,
  0x09, 0x09, 0x3d, 0x20, 0x2f, 0x7b, 0x75, 0x6e, 0x69, 0x63, 0x6f, 0x64,
  0x65, 0x2d, 0x73, 0x65, 0x70, 0x61, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x7d,
  0x7c, 0x5b, 0x5c, 0x74, 0x5d, 0x2f, 0x0a, 0x09, 0x09, 0x61, 0x6e, 0x79,
  0x63, 0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65, 0x72, 0x09, 0x3d, 0x20,
  0x2f, 0x5b, 0x5e, 0x5c, 0x6e, 0x5c, 0x72, 0x5d, 0x2f, 0x0a, 0x0a, 0x09,
  0x09, 0x2f, 0x2f, 0x20, 0x43, 0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65,
  0x72, 0x73, 0x20, 0x76, 0x61, 0x6c, 0x69, 0x64, 0x20, 0x69, 0x6e, 0x20,
  0x72, 0x65, 0x67, 0x75, 0x6c, 0x61, 0x72, 0x20, 0x65, 0x78, 0x70, 0x72,
  0x65, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x73, 0x0a, 0x09, 0x09, 0x66, 0x69,
  0x72, 0x73, 0x74, 0x2d, 0x72, 0x65, 0x2d, 0x63, 0x68, 0x61, 0x72, 0x20,
  0x09, 0x3d, 0x20, 0x2f, 0x5b, 0x5e, 0x5c, 0x2f, 0x5c, 0x2a, 0x5d, 0x7c,
  0x28, 0x5c, 0x5c, 0x5c, 0x2f, 0x29, 0x2f, 0x0a, 0x09, 0x09, 0x72, 0x65,
  0x67, 0x65, 0x78, 0x2d, 0x63, 0x68, 0x61, 0x72, 0x09, 0x09, 0x3d, 0x20,
  0x2f, 0x5b, 0x5e, 0x5c, 0x2f, 0x5d, 0x7c, 0x28, 0x5c, 0x5c, 0x5c, 0x2f,
  0x29, 0x2f, 0x0a, 0x09, 0x09, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x2d,
  0x63, 0x68, 0x61, 0x72, 0x20, 0x20, 0x20, 0x20, 0x20, 0x3d, 0x20, 0x2f,
  0x5b, 0x5e, 0x22, 0x5d, 0x7c, 0x28, 0x5c, 0x5c, 0x22, 0x29, 0x2f, 0x0a,
  0x09, 0x09, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x20, 0x49, 0x64, 0x65, 0x6e,
  0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x73, 0x2c, 0x20, 0x72, 0x65, 0x67,
  0x75, 0x6c, 0x61, 0x72, 0x20, 0x65, 0x78, 0x70, 0x72, 0x65, 0x73, 0x73,
  0x69, 0x6f, 0x6e, 0x73, 0x0a, 0x09, 0x09, 0x69, 0x64, 0x65, 0x6e, 0x74,
  0x69, 0x66, 0x69, 0x65, 0x72, 0x09, 0x09, 0x3d, 0x20, 0x2f, 0x7b, 0x6c,
  0x65, 0x74, 0x74, 0x65, 0x72, 0x7d, 0x7b, 0x61, 0x6c, 0x70, 0x68, 0x61,
  0x6e, 0x75, 0x6d, 0x65, 0x72, 0x69, 0x63, 0x7d, 0x2a, 0x2f, 0x0a, 0x09,
  0x09, 0x72, 0x65, 0x67, 0x65, 0x78, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x2f,
  0x5c, 0x2f, 0x7b, 0x66, 0x69, 0x72, 0x73, 0x74, 0x2d, 0x72, 0x65, 0x2d,
  0x63, 0x68, 0x61, 0x72, 0x7d, 0x7b, 0x72, 0x65, 0x67, 0x65, 0x78, 0x2d,
  0x63, 0x68, 0x61, 0x72, 0x7d, 0x2a, 0x5c, 0x2f, 0x2f, 0x0a, 0x09, 0x7d,
  0x0a, 0x0a, 0x09, 0x2f, 0x2f, 0x2f, 0x20, 0x4c, 0x65, 0x78, 0x69, 0x63,
  0x61, 0x6c, 0x20, 0x73, 0x79, 0x6d, 0x62, 0x6f, 0x6c, 0x73, 0x0a, 0x09,
  0x6c, 0x65, 0x78, 0x65, 0x72, 0x20, 0x7b, 0x0a, 0x09, 0x09, 0x69, 0x64,
  0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x09, 0x09, 0x3d, 0x20,
  0x2f, 0x7b, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72,
  0x7d, 0x2f, 0x0a, 0x09, 0x09, 0x6e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d,
  0x69, 0x6e, 0x61, 0x6c, 0x09, 0x09, 0x3d, 0x20, 0x2f, 0x5c, 0x3c, 0x7b,
  0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x7d, 0x5c,
  0x3e, 0x2f, 0x0a, 0x09, 0x09, 0x72, 0x65, 0x67, 0x65, 0x78, 0x09, 0x09,
  0x09, 0x3d, 0x20, 0x2f, 0x7b, 0x72, 0x65, 0x67, 0x65, 0x78, 0x7d, 0x2f,
  0x0a, 0x09, 0x09, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x09, 0x09, 0x09,
  0x3d, 0x20, 0x2f, 0x22, 0x7b, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x2d,
  0x63, 0x68, 0x61, 0x72, 0x7d, 0x2a, 0x22, 0x2f, 0x0a, 0x09, 0x09, 0x63,
  0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65, 0x72, 0x09, 0x09, 0x3d, 0x20,
  0x2f, 0x27, 0x28, 0x2e, 0x7c, 0x5c, 0x5c, 0x2e, 0x29, 0x27, 0x2f, 0x0a,
  0x09, 0x7d, 0x0a, 0x09, 0x0a, 0x09, 0x2f, 0x2f, 0x2f, 0x20, 0x49, 0x67,
  0x6e, 0x6f, 0x72, 0x65, 0x64, 0x20, 0x73, 0x79, 0x6d, 0x62, 0x6f, 0x6c,
  0x73, 0x0a, 0x09, 0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65, 0x20, 0x7b, 0x0a,
  0x09, 0x09, 0x6e, 0x65, 0x77, 0x6c, 0x69, 0x6e, 0x65, 0x09, 0x09, 0x09,
  0x3d, 0x20, 0x2f, 0x5b, 0x5c, 0x6e, 0x5c, 0x72, 0x5d, 0x2b, 0x2f, 0x0a,
  0x09, 0x09, 0x77, 0x68, 0x69, 0x74, 0x65, 0x73, 0x70, 0x61, 0x63, 0x65,
  0x09, 0x09, 0x3d, 0x20, 0x2f, 0x7b, 0x77, 0x68, 0x69, 0x74, 0x65, 0x73,
  0x70, 0x61, 0x63, 0x65, 0x7d, 0x2b, 0x2f, 0x0a, 0x09, 0x09, 0x63, 0x6f,
  0x6d, 0x6d, 0x65, 0x6e, 0x74, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x2f, 0x5c,
  0x2f, 0x5c, 0x2f, 0x28, 0x7b, 0x61, 0x6e, 0x79, 0x63, 0x68, 0x61, 0x72,
  0x61, 0x63, 0x74, 0x65, 0x72, 0x7d, 0x2a, 0x29, 0x2f, 0x0a, 0x09, 0x09,
  0x63, 0x2d, 0x63, 0x6f, 0x6d, 0x6d, 0x65, 0x6e, 0x74, 0x09, 0x09, 0x3d,
  0x20, 0x2f, 0x5c, 0x2f, 0x5c, 0x2a, 0x28, 0x5b, 0x5e, 0x2a, 0x5d, 0x7c,
  0x5c, 0x2a, 0x5b, 0x5e, 0x5c, 0x2f, 0x5d, 0x29, 0x2a, 0x5c, 0x2a, 0x5c,
  0x2f, 0x2f, 0x0a, 0x09, 0x7d, 0x0a, 0x09, 0x0a, 0x09, 0x2f, 0x2f, 0x2f,
  0x20, 0x4b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x0a, 0x09, 0x2f,
  0x2f, 0x2f, 0x20, 0x28, 0x57, 0x65, 0x20, 0x75, 0x73, 0x65, 0x20, 0x76,
  0x65, 0x72, 0x79, 0x20, 0x66, 0x65, 0x77, 0x20, 0x6b, 0x65, 0x79, 0x77,
  0x6f, 0x72, 0x64, 0x73, 0x2c, 0x20, 0x74, 0x6f, 0x20, 0x65, 0x78, 0x74,
  0x65, 0x6e, 0x64, 0x20, 0x74, 0x68, 0x65, 0x20, 0x72, 0x61, 0x6e, 0x67,
  0x65, 0x20, 0x6f, 0x66, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66,
  0x69, 0x65, 0x72, 0x73, 0x20, 0x61, 0x76, 0x61, 0x69, 0x6c, 0x61, 0x62,
  0x6c, 0x65, 0x29, 0x0a, 0x09, 0x6b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64,
  0x73, 0x20, 0x7b, 0x0a, 0x09, 0x7d, 0x0a, 0x09, 0x0a, 0x09, 0x2f, 0x2f,
  0x2f, 0x20, 0x57, 0x65, 0x61, 0x6b, 0x20, 0x6b, 0x65, 0x79, 0x77, 0x6f,
  0x72, 0x64, 0x73, 0x0a, 0x09, 0x2f, 0x2f, 0x2f, 0x20, 0x44, 0x65, 0x63,
  0x6c, 0x61, 0x72, 0x65, 0x64, 0x20, 0x68, 0x65, 0x72, 0x65, 0x20, 0x74,
  0x6f, 0x20, 0x73, 0x75, 0x70, 0x70, 0x72, 0x65, 0x73, 0x73, 0x20, 0x77,
  0x61, 0x72, 0x6e, 0x69, 0x6e, 0x67, 0x73, 0x0a, 0x09, 0x77, 0x65, 0x61,
  0x6b, 0x20, 0x6b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x20, 0x7b,
  0x0a, 0x09, 0x09, 0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x0a,
  0x09, 0x09, 0x69, 0x6d, 0x70, 0x6f, 0x72, 0x74, 0x0a, 0x09, 0x09, 0x6c,
  0x65, 0x78, 0x65, 0x72, 0x2d, 0x73, 0x79, 0x6d, 0x62, 0x6f, 0x6c, 0x73,
  0x0a, 0x09, 0x09, 0x6c, 0x65, 0x78, 0x65, 0x72, 0x0a, 0x09, 0x09, 0x69,
  0x67, 0x6e, 0x6f, 0x72, 0x65, 0x0a, 0x09, 0x09, 0x77, 0x65, 0x61, 0x6b,
  0x0a, 0x09, 0x09, 0x6b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x0a,
  0x09, 0x09, 0x67, 0x72, 0x61, 0x6d, 0x6d, 0x61, 0x72, 0x0a, 0x09, 0x09,
  0x72, 0x65, 0x70, 0x6c, 0x61, 0x63, 0x65, 0x0a, 0x09, 0x09, 0x70, 0x61,
  0x72, 0x73, 0x65, 0x72, 0x0a, 0x09, 0x09, 0x74, 0x65, 0x73, 0x74, 0x0a,
  0x09, 0x09, 0x66, 0x72, 0x6f, 0x6d, 0x0a, 0x09, 0x09, 0x63, 0x61, 0x73,
  0x65, 0x0a, 0x09, 0x09, 0x73, 0x65, 0x6e, 0x73, 0x69, 0x74, 0x69, 0x76,
  0x65, 0x0a, 0x09, 0x09, 0x69, 0x6e, 0x73, 0x65, 0x6e, 0x73, 0x69, 0x74,
  0x69, 0x76, 0x65, 0x0a, 0x09, 0x09, 0x70, 0x72, 0x65, 0x63, 0x65, 0x64,
  0x65, 0x6e, 0x63, 0x65, 0x0a, 0x0a, 0x09, 0x09, 0x6c, 0x65, 0x66, 0x74,
  0x0a, 0x09, 0x09, 0x72, 0x69, 0x67, 0x68, 0x74, 0x0a, 0x09, 0x09, 0x6e,
  0x6f, 0x6e, 0x2d, 0x61, 0x73, 0x73, 0x6f, 0x63, 0x69, 0x61, 0x74, 0x69,
  0x76, 0x65, 0x0a, 0x09, 0x09, 0x6e, 0x6f, 0x6e, 0x2d, 0x61, 0x73, 0x73,
  0x6f, 0x63, 0x0a, 0x0a, 0x09, 0x09, 0x63, 0x6f, 0x6e, 0x66, 0x6c, 0x69,
  0x63, 0x74, 0x0a, 0x09, 0x09, 0x73, 0x68, 0x69, 0x66, 0x74, 0x0a, 0x09,
  0x09, 0x72, 0x65, 0x64, 0x75, 0x63, 0x65, 0x0a, 0x0a, 0x09, 0x09, 0x63,
  0x61, 0x6e, 0x2d, 0x63, 0x6c, 0x61, 0x73, 0x68, 0x0a, 0x09, 0x7d, 0x0a,
  0x09, 0x0a, 0x09, 0x2f, 0x2f, 0x2f, 0x20, 0x54, 0x68, 0x65, 0x20, 0x67,
  0x72, 0x61, 0x6d, 0x6d, 0x61, 0x72, 0x20, 0x69, 0x74, 0x73, 0x65, 0x6c,
  0x66, 0x0a, 0x09, 0x67, 0x72, 0x61, 0x6d, 0x6d, 0x61, 0x72, 0x20, 0x7b,
  0x0a, 0x09, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f, 0x2f,
  0x20, 0x54, 0x68, 0x65, 0x20, 0x74, 0x6f, 0x70, 0x2d, 0x6c, 0x65, 0x76,
  0x65, 0x6c, 0x20, 0x64, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f,
  0x6e, 0x73, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x0a, 0x09, 0x09, 0x3c,
  0x50, 0x61, 0x72, 0x73, 0x65, 0x72, 0x2d, 0x4c, 0x61, 0x6e, 0x67, 0x75,
  0x61, 0x67, 0x65, 0x3e, 0x09, 0x09, 0x3d, 0x20, 0x28, 0x3c, 0x54, 0x6f,
  0x70, 0x4c, 0x65, 0x76, 0x65, 0x6c, 0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b,
  0x3e, 0x29, 0x2a, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x54, 0x6f, 0x70, 0x4c,
  0x65, 0x76, 0x65, 0x6c, 0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x09,
  0x09, 0x3d, 0x20, 0x3c, 0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65,
  0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x0a, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x49, 0x6d, 0x70, 0x6f, 0x72,
  0x74, 0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x0a, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x50, 0x61, 0x72, 0x73,
  0x65, 0x72, 0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x0a, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x54, 0x65, 0x73,
  0x74, 0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x0a, 0x0a, 0x09, 0x09,
  0x3c, 0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x2d, 0x42, 0x6c,
  0x6f, 0x63, 0x6b, 0x3e, 0x09, 0x09, 0x3d, 0x20, 0x6c, 0x61, 0x6e, 0x67,
  0x75, 0x61, 0x67, 0x65, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66,
  0x69, 0x65, 0x72, 0x5b, 0x6e, 0x61, 0x6d, 0x65, 0x5d, 0x20, 0x28, 0x3c,
  0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x2d, 0x49, 0x6e, 0x68,
  0x65, 0x72, 0x69, 0x74, 0x73, 0x3e, 0x29, 0x3f, 0x20, 0x27, 0x7b, 0x27,
  0x20, 0x28, 0x3c, 0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x2d,
  0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x29,
  0x2a, 0x20, 0x27, 0x7d, 0x27, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x49, 0x6d,
  0x70, 0x6f, 0x72, 0x74, 0x2d, 0x42, 0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x09,
  0x09, 0x09, 0x3d, 0x20, 0x69, 0x6d, 0x70, 0x6f, 0x72, 0x74, 0x20, 0x73,
  0x74, 0x72, 0x69, 0x6e, 0x67, 0x5b, 0x66, 0x69, 0x6c, 0x65, 0x6e, 0x61,
  0x6d, 0x65, 0x5d, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x4c, 0x61, 0x6e, 0x67,
  0x75, 0x61, 0x67, 0x65, 0x2d, 0x49, 0x6e, 0x68, 0x65, 0x72, 0x69, 0x74,
  0x73, 0x3e, 0x09, 0x09, 0x3d, 0x20, 0x27, 0x3a, 0x27, 0x20, 0x69, 0x64,
  0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x69, 0x6e, 0x68,
  0x65, 0x72, 0x69, 0x74, 0x2d, 0x66, 0x72, 0x6f, 0x6d, 0x5d, 0x0a, 0x0a,
  0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x20, 0x54, 0x68,
  0x65, 0x20, 0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x20, 0x62,
  0x6c, 0x6f, 0x63, 0x6b, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x0a, 0x09,
  0x09, 0x3c, 0x4c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x2d, 0x44,
  0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x3d,
  0x20, 0x3c, 0x4c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x53, 0x79, 0x6d, 0x62,
  0x6f, 0x6c, 0x73, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x3e, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x7c, 0x20, 0x3c, 0x4c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x44, 0x65, 0x66,
  0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x0a, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x49, 0x67, 0x6e, 0x6f,
  0x72, 0x65, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f,
  0x6e, 0x3e, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c,
  0x20, 0x3c, 0x4b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x2d, 0x44,
  0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x0a, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x47, 0x72,
  0x61, 0x6d, 0x6d, 0x61, 0x72, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69,
  0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x7c, 0x20, 0x3c, 0x50, 0x72, 0x65, 0x63, 0x65, 0x64, 0x65,
  0x6e, 0x63, 0x65, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x3e, 0x0a, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09,
  0x2f, 0x2f, 0x20, 0x42, 0x61, 0x73, 0x69, 0x63, 0x20, 0x6c, 0x61, 0x6e,
  0x67, 0x75, 0x61, 0x67, 0x65, 0x20, 0x69, 0x74, 0x65, 0x6d, 0x73, 0x0a,
  0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x4c, 0x65, 0x78,
  0x65, 0x72, 0x2d, 0x53, 0x79, 0x6d, 0x62, 0x6f, 0x6c, 0x73, 0x2d, 0x44,
  0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x3d,
  0x20, 0x3c, 0x4c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x53, 0x79, 0x6d, 0x62,
  0x6f, 0x6c, 0x73, 0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72,
  0x3e, 0x2a, 0x5b, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72, 0x73,
  0x5d, 0x20, 0x6c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x73, 0x79, 0x6d, 0x62,
  0x6f, 0x6c, 0x73, 0x20, 0x27, 0x7b, 0x27, 0x20, 0x28, 0x3c, 0x4c, 0x65,
  0x78, 0x65, 0x6d, 0x65, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74,
  0x69, 0x6f, 0x6e, 0x3e, 0x29, 0x2a, 0x5b, 0x64, 0x65, 0x66, 0x69, 0x6e,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x5d, 0x20, 0x27, 0x7d, 0x27, 0x0a,
  0x0a, 0x09, 0x09, 0x3c, 0x4c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x44, 0x65,
  0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x20, 0x09, 0x09,
  0x09, 0x3d, 0x20, 0x5b, 0x3d, 0x3e, 0x20, 0x3c, 0x4c, 0x65, 0x78, 0x65,
  0x72, 0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72, 0x3e, 0x2a,
  0x20, 0x6c, 0x65, 0x78, 0x65, 0x72, 0x5d, 0x20, 0x3c, 0x4c, 0x65, 0x78,
  0x65, 0x72, 0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72, 0x3e,
  0x2a, 0x5b, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72, 0x73, 0x5d,
  0x20, 0x6c, 0x65, 0x78, 0x65, 0x72, 0x20, 0x27, 0x7b, 0x27, 0x20, 0x28,
  0x3c, 0x4c, 0x65, 0x78, 0x65, 0x6d, 0x65, 0x2d, 0x44, 0x65, 0x66, 0x69,
  0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x29, 0x2a, 0x5b, 0x64, 0x65,
  0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x5d, 0x20, 0x27,
  0x7d, 0x27, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x49, 0x67, 0x6e, 0x6f, 0x72,
  0x65, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e,
  0x3e, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x69, 0x67, 0x6e, 0x6f, 0x72, 0x65,
  0x20, 0x27, 0x7b, 0x27, 0x20, 0x28, 0x3c, 0x4b, 0x65, 0x79, 0x77, 0x6f,
  0x72, 0x64, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f,
  0x6e, 0x3e, 0x29, 0x2a, 0x5b, 0x64, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74,
  0x69, 0x6f, 0x6e, 0x73, 0x5d, 0x20, 0x27, 0x7d, 0x27, 0x0a, 0x0a, 0x09,
  0x09, 0x3c, 0x4b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x2d, 0x44,
  0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x09,
  0x3d, 0x20, 0x5b, 0x3d, 0x3e, 0x20, 0x3c, 0x4c, 0x65, 0x78, 0x65, 0x72,
  0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72, 0x3e, 0x2a, 0x20,
  0x6b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x5d, 0x20, 0x3c, 0x4c,
  0x65, 0x78, 0x65, 0x72, 0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65,
  0x72, 0x3e, 0x2a, 0x5b, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72,
  0x73, 0x5d, 0x20, 0x6b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x73, 0x20,
  0x27, 0x7b, 0x27, 0x20, 0x28, 0x3c, 0x4b, 0x65, 0x79, 0x77, 0x6f, 0x72,
  0x64, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e,
  0x3e, 0x29, 0x2a, 0x5b, 0x64, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x5d, 0x20, 0x27, 0x7d, 0x27, 0x0a, 0x0a, 0x09, 0x09,
  0x3c, 0x4c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66,
  0x69, 0x65, 0x72, 0x3e, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x77, 0x65, 0x61,
  0x6b, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c,
  0x20, 0x63, 0x61, 0x73, 0x65, 0x20, 0x73, 0x65, 0x6e, 0x73, 0x69, 0x74,
  0x69, 0x76, 0x65, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x7c, 0x20, 0x63, 0x61, 0x73, 0x65, 0x20, 0x69, 0x6e, 0x73, 0x65,
  0x6e, 0x73, 0x69, 0x74, 0x69, 0x76, 0x65, 0x0a, 0x0a, 0x09, 0x09, 0x3c,
  0x4c, 0x65, 0x78, 0x65, 0x72, 0x2d, 0x53, 0x79, 0x6d, 0x62, 0x6f, 0x6c,
  0x73, 0x2d, 0x4d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65, 0x72, 0x3e, 0x09,
  0x3d, 0x20, 0x63, 0x61, 0x73, 0x65, 0x20, 0x73, 0x65, 0x6e, 0x73, 0x69,
  0x74, 0x69, 0x76, 0x65, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x7c, 0x20, 0x63, 0x61, 0x73, 0x65, 0x20, 0x69, 0x6e, 0x73,
  0x65, 0x6e, 0x73, 0x69, 0x74, 0x69, 0x76, 0x65, 0x0a, 0x0a, 0x09, 0x09,
  0x3c, 0x4b, 0x65, 0x79, 0x77, 0x6f, 0x72, 0x64, 0x2d, 0x44, 0x65, 0x66,
  0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x09, 0x3d, 0x20,
  0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x6c,
  0x69, 0x74, 0x65, 0x72, 0x61, 0x6c, 0x5d, 0x0a, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x4c, 0x65, 0x78, 0x65,
  0x6d, 0x65, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f,
  0x6e, 0x3e, 0x5b, 0x6c, 0x65, 0x78, 0x65, 0x6d, 0x65, 0x5d, 0x0a, 0x0a,
  0x09, 0x09, 0x3c, 0x4c, 0x65, 0x78, 0x65, 0x6d, 0x65, 0x2d, 0x44, 0x65,
  0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x20, 0x09, 0x09,
  0x3d, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72,
  0x5b, 0x6e, 0x61, 0x6d, 0x65, 0x5d, 0x20, 0x28, 0x27, 0x3d, 0x27, 0x20,
  0x7c, 0x20, 0x22, 0x7c, 0x3d, 0x22, 0x29, 0x20, 0x28, 0x72, 0x65, 0x67,
  0x65, 0x78, 0x20, 0x7c, 0x20, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x20,
  0x7c, 0x20, 0x63, 0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65, 0x72, 0x29,
  0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20,
  0x5b, 0x3d, 0x3e, 0x20, 0x72, 0x65, 0x70, 0x6c, 0x61, 0x63, 0x65, 0x20,
  0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x20, 0x27,
  0x3d, 0x27, 0x5d, 0x20, 0x72, 0x65, 0x70, 0x6c, 0x61, 0x63, 0x65, 0x20,
  0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x6e,
  0x61, 0x6d, 0x65, 0x5d, 0x20, 0x27, 0x3d, 0x27, 0x20, 0x28, 0x72, 0x65,
  0x67, 0x65, 0x78, 0x20, 0x7c, 0x20, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67,
  0x20, 0x7c, 0x20, 0x63, 0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65, 0x72,
  0x29, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x7c, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69,
  0x65, 0x72, 0x5b, 0x6e, 0x61, 0x6d, 0x65, 0x5d, 0x20, 0x27, 0x3d, 0x27,
  0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b,
  0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x2d, 0x6c, 0x61, 0x6e, 0x67, 0x75,
  0x61, 0x67, 0x65, 0x5d, 0x20, 0x27, 0x2e, 0x27, 0x20, 0x69, 0x64, 0x65,
  0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x73, 0x6f, 0x75, 0x72,
  0x63, 0x65, 0x2d, 0x6e, 0x61, 0x6d, 0x65, 0x5d, 0x0a, 0x0a, 0x09, 0x09,
  0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x20, 0x44, 0x65, 0x66, 0x69,
  0x6e, 0x69, 0x6e, 0x67, 0x20, 0x67, 0x72, 0x61, 0x6d, 0x6d, 0x61, 0x72,
  0x73, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x47,
  0x72, 0x61, 0x6d, 0x6d, 0x61, 0x72, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x09, 0x3d, 0x20, 0x67, 0x72,
  0x61, 0x6d, 0x6d, 0x61, 0x72, 0x20, 0x27, 0x7b, 0x27, 0x20, 0x28, 0x3c,
  0x4e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x2d,
  0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x29,
  0x2a, 0x5b, 0x6e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61,
  0x6c, 0x73, 0x5d, 0x20, 0x27, 0x7d, 0x27, 0x0a, 0x0a, 0x09, 0x09, 0x3c,
  0x4e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x2d,
  0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09,
  0x3d, 0x20, 0x5b, 0x3d, 0x3e, 0x20, 0x6e, 0x6f, 0x6e, 0x74, 0x65, 0x72,
  0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x20, 0x28, 0x27, 0x3d, 0x27, 0x20, 0x7c,
  0x20, 0x22, 0x7c, 0x3d, 0x22, 0x29, 0x5d, 0x20, 0x6e, 0x6f, 0x6e, 0x74,
  0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x20, 0x28, 0x27, 0x3d, 0x27,
  0x20, 0x7c, 0x20, 0x22, 0x7c, 0x3d, 0x22, 0x29, 0x20, 0x3c, 0x50, 0x72,
  0x6f, 0x64, 0x75, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x20, 0x28, 0x27,
  0x7c, 0x27, 0x20, 0x3c, 0x50, 0x72, 0x6f, 0x64, 0x75, 0x63, 0x74, 0x69,
  0x6f, 0x6e, 0x3e, 0x29, 0x2a, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x7c, 0x20, 0x5b, 0x3d, 0x3e, 0x20, 0x72, 0x65, 0x70,
  0x6c, 0x61, 0x63, 0x65, 0x20, 0x6e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d,
  0x69, 0x6e, 0x61, 0x6c, 0x20, 0x27, 0x3d, 0x27, 0x5d, 0x20, 0x72, 0x65,
  0x70, 0x6c, 0x61, 0x63, 0x65, 0x20, 0x6e, 0x6f, 0x6e, 0x74, 0x65, 0x72,
  0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x20, 0x27, 0x3d, 0x27, 0x20, 0x3c, 0x50,
  0x72, 0x6f, 0x64, 0x75, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x20, 0x28,
  0x27, 0x7c, 0x27, 0x20, 0x3c, 0x50, 0x72, 0x6f, 0x64, 0x75, 0x63, 0x74,
  0x69, 0x6f, 0x6e, 0x3e, 0x29, 0x2a, 0x0a, 0x0a, 0x09, 0x09, 0x2f, 0x2f,
  0x20, 0x54, 0x6f, 0x70, 0x20, 0x6c, 0x65, 0x76, 0x65, 0x6c, 0x20, 0x69,
  0x73, 0x20, 0x6a, 0x75, 0x73, 0x74, 0x20, 0x61, 0x20, 0x73, 0x69, 0x6d,
  0x70, 0x6c, 0x65, 0x20, 0x45, 0x42, 0x4e, 0x46, 0x20, 0x74, 0x65, 0x72,
  0x6d, 0x2c, 0x20, 0x61, 0x73, 0x20, 0x74, 0x68, 0x65, 0x20, 0x27, 0x7c,
  0x27, 0x20, 0x6f, 0x70, 0x65, 0x72, 0x61, 0x74, 0x6f, 0x72, 0x20, 0x63,
  0x72, 0x65, 0x61, 0x74, 0x65, 0x73, 0x20, 0x61, 0x20, 0x6e, 0x65, 0x77,
  0x20, 0x70, 0x72, 0x6f, 0x64, 0x75, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x61, 0x74, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x70, 0x6f, 0x69, 0x6e,
  0x74, 0x0a, 0x09, 0x09, 0x3c, 0x50, 0x72, 0x6f, 0x64, 0x75, 0x63, 0x74,
  0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x28, 0x3c,
  0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62, 0x6e, 0x66, 0x2d,
  0x49, 0x74, 0x65, 0x6d, 0x3e, 0x29, 0x2a, 0x5b, 0x69, 0x74, 0x65, 0x6d,
  0x73, 0x5d, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x45, 0x62, 0x6e, 0x66, 0x2d,
  0x49, 0x74, 0x65, 0x6d, 0x3e, 0x09, 0x09, 0x09, 0x09, 0x09, 0x3d, 0x20,
  0x28, 0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62, 0x6e,
  0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x29, 0x2a, 0x5b, 0x69, 0x74,
  0x65, 0x6d, 0x73, 0x5d, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x7c, 0x20, 0x28, 0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65,
  0x2d, 0x45, 0x62, 0x6e, 0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x29,
  0x2a, 0x5b, 0x69, 0x74, 0x65, 0x6d, 0x73, 0x5d, 0x20, 0x27, 0x7c, 0x27,
  0x20, 0x3c, 0x45, 0x62, 0x6e, 0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e,
  0x5b, 0x6f, 0x72, 0x2d, 0x69, 0x74, 0x65, 0x6d, 0x5d, 0x0a, 0x0a, 0x09,
  0x09, 0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62, 0x6e,
  0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x09, 0x09, 0x09, 0x3d, 0x20,
  0x3c, 0x4e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c,
  0x3e, 0x20, 0x3c, 0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d,
  0x53, 0x70, 0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x3e, 0x3f, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x7c, 0x20, 0x3c, 0x54, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c,
  0x3e, 0x20, 0x3c, 0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d,
  0x53, 0x70, 0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x3e, 0x3f, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x7c, 0x20, 0x3c, 0x47, 0x75, 0x61, 0x72, 0x64, 0x3e, 0x20, 0x3c,
  0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x53, 0x70, 0x65,
  0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x3f,
  0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20,
  0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62, 0x6e, 0x66,
  0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x20, 0x27, 0x2a, 0x27, 0x20, 0x3c,
  0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x53, 0x70, 0x65,
  0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x3f,
  0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20,
  0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62, 0x6e, 0x66,
  0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x20, 0x27, 0x2b, 0x27, 0x20, 0x3c,
  0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x53, 0x70, 0x65,
  0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x3f,
  0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20,
  0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62, 0x6e, 0x66,
  0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x20, 0x27, 0x3f, 0x27, 0x20, 0x3c,
  0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x53, 0x70, 0x65,
  0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x3f,
  0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20,
  0x27, 0x28, 0x27, 0x20, 0x3c, 0x45, 0x62, 0x6e, 0x66, 0x2d, 0x49, 0x74,
  0x65, 0x6d, 0x3e, 0x20, 0x27, 0x29, 0x27, 0x20, 0x3c, 0x53, 0x65, 0x6d,
  0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x53, 0x70, 0x65, 0x63, 0x69, 0x66,
  0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x3f, 0x0a, 0x0a, 0x09,
  0x09, 0x3c, 0x47, 0x75, 0x61, 0x72, 0x64, 0x3e, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x3d, 0x20, 0x22, 0x5b, 0x3d, 0x3e, 0x22, 0x20, 0x3c, 0x45,
  0x62, 0x6e, 0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x20, 0x27, 0x5d,
  0x27, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c,
  0x20, 0x22, 0x5b, 0x3d, 0x3e, 0x22, 0x20, 0x27, 0x5b, 0x27, 0x20, 0x63,
  0x61, 0x6e, 0x2d, 0x63, 0x6c, 0x61, 0x73, 0x68, 0x20, 0x27, 0x5d, 0x27,
  0x20, 0x3c, 0x45, 0x62, 0x6e, 0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e,
  0x20, 0x27, 0x5d, 0x27, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x4e, 0x6f, 0x6e,
  0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x09, 0x09, 0x09,
  0x09, 0x3d, 0x20, 0x6e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e,
  0x61, 0x6c, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x7c, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72,
  0x5b, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x2d, 0x6c, 0x61, 0x6e, 0x67,
  0x75, 0x61, 0x67, 0x65, 0x5d, 0x20, 0x27, 0x2e, 0x27, 0x20, 0x6e, 0x6f,
  0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x0a, 0x0a, 0x09,
  0x09, 0x3c, 0x54, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x3c, 0x42, 0x61, 0x73, 0x69, 0x63,
  0x2d, 0x54, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x0a, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x69, 0x64,
  0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x73, 0x6f, 0x75,
  0x72, 0x63, 0x65, 0x2d, 0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65,
  0x5d, 0x20, 0x27, 0x2e, 0x27, 0x20, 0x3c, 0x42, 0x61, 0x73, 0x69, 0x63,
  0x2d, 0x54, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x0a, 0x0a,
  0x09, 0x09, 0x3c, 0x42, 0x61, 0x73, 0x69, 0x63, 0x2d, 0x54, 0x65, 0x72,
  0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x69,
  0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x6c, 0x65,
  0x78, 0x65, 0x6d, 0x65, 0x2d, 0x6e, 0x61, 0x6d, 0x65, 0x5d, 0x0a, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x73, 0x74,
  0x72, 0x69, 0x6e, 0x67, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x7c, 0x20, 0x63, 0x68, 0x61, 0x72, 0x61, 0x63, 0x74, 0x65,
  0x72, 0x0a, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f, 0x2f,
  0x20, 0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x73, 0x0a, 0x09,
  0x09, 0x2f, 0x2f, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x53, 0x65, 0x6d, 0x61,
  0x6e, 0x74, 0x69, 0x63, 0x2d, 0x53, 0x70, 0x65, 0x63, 0x69, 0x66, 0x69,
  0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x3d, 0x20, 0x27, 0x5b,
  0x27, 0x20, 0x3c, 0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d,
  0x49, 0x74, 0x65, 0x6d, 0x3e, 0x5b, 0x66, 0x69, 0x72, 0x73, 0x74, 0x2d,
  0x69, 0x74, 0x65, 0x6d, 0x5d, 0x20, 0x28, 0x27, 0x2c, 0x27, 0x20, 0x3c,
  0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x49, 0x74, 0x65,
  0x6d, 0x3e, 0x29, 0x2a, 0x5b, 0x6d, 0x6f, 0x72, 0x65, 0x2d, 0x69, 0x74,
  0x65, 0x6d, 0x73, 0x5d, 0x20, 0x27, 0x5d, 0x27, 0x0a, 0x0a, 0x09, 0x09,
  0x3c, 0x53, 0x65, 0x6d, 0x61, 0x6e, 0x74, 0x69, 0x63, 0x2d, 0x49, 0x74,
  0x65, 0x6d, 0x3e, 0x09, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x69, 0x64, 0x65,
  0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b, 0x6e, 0x61, 0x6d, 0x65,
  0x5d, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c,
  0x20, 0x63, 0x6f, 0x6e, 0x66, 0x6c, 0x69, 0x63, 0x74, 0x20, 0x27, 0x3d,
  0x27, 0x20, 0x73, 0x68, 0x69, 0x66, 0x74, 0x0a, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x63, 0x6f, 0x6e, 0x66, 0x6c,
  0x69, 0x63, 0x74, 0x20, 0x27, 0x3d, 0x27, 0x20, 0x72, 0x65, 0x64, 0x75,
  0x63, 0x65, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x7c, 0x20, 0x63, 0x6f, 0x6e, 0x66, 0x6c, 0x69, 0x63, 0x74, 0x20, 0x27,
  0x3d, 0x27, 0x20, 0x77, 0x65, 0x61, 0x6b, 0x20, 0x72, 0x65, 0x64, 0x75,
  0x63, 0x65, 0x0a, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f,
  0x2f, 0x20, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x6e, 0x67, 0x20, 0x70,
  0x72, 0x65, 0x63, 0x65, 0x64, 0x65, 0x6e, 0x63, 0x65, 0x0a, 0x09, 0x09,
  0x2f, 0x2f, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x50, 0x72, 0x65, 0x63, 0x65,
  0x64, 0x65, 0x6e, 0x63, 0x65, 0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69,
  0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x09, 0x3d, 0x20, 0x70, 0x72, 0x65,
  0x63, 0x65, 0x64, 0x65, 0x6e, 0x63, 0x65, 0x20, 0x27, 0x7b, 0x27, 0x20,
  0x3c, 0x50, 0x72, 0x65, 0x63, 0x65, 0x64, 0x65, 0x6e, 0x63, 0x65, 0x2d,
  0x49, 0x74, 0x65, 0x6d, 0x3e, 0x2a, 0x5b, 0x69, 0x74, 0x65, 0x6d, 0x73,
  0x5d, 0x20, 0x27, 0x7d, 0x27, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x50, 0x72,
  0x65, 0x63, 0x65, 0x64, 0x65, 0x6e, 0x63, 0x65, 0x2d, 0x49, 0x74, 0x65,
  0x6d, 0x3e, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x6c, 0x65, 0x66, 0x74, 0x20,
  0x3c, 0x45, 0x71, 0x75, 0x61, 0x6c, 0x2d, 0x50, 0x72, 0x65, 0x63, 0x65,
  0x64, 0x65, 0x6e, 0x63, 0x65, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x73, 0x3e,
  0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x3c, 0x45, 0x71, 0x75, 0x61, 0x6c,
  0x2d, 0x50, 0x72, 0x65, 0x63, 0x65, 0x64, 0x65, 0x6e, 0x63, 0x65, 0x2d,
  0x49, 0x74, 0x65, 0x6d, 0x73, 0x3e, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x6e, 0x6f, 0x6e, 0x2d, 0x61, 0x73,
  0x73, 0x6f, 0x63, 0x69, 0x61, 0x74, 0x69, 0x76, 0x65, 0x20, 0x20, 0x3c,
  0x45, 0x71, 0x75, 0x61, 0x6c, 0x2d, 0x50, 0x72, 0x65, 0x63, 0x65, 0x64,
  0x65, 0x6e, 0x63, 0x65, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x73, 0x3e, 0x0a,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x6e,
  0x6f, 0x6e, 0x2d, 0x61, 0x73, 0x73, 0x6f, 0x63, 0x20, 0x3c, 0x45, 0x71,
  0x75, 0x61, 0x6c, 0x2d, 0x50, 0x72, 0x65, 0x63, 0x65, 0x64, 0x65, 0x6e,
  0x63, 0x65, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x73, 0x3e, 0x0a, 0x0a, 0x09,
  0x09, 0x3c, 0x45, 0x71, 0x75, 0x61, 0x6c, 0x2d, 0x50, 0x72, 0x65, 0x63,
  0x65, 0x64, 0x65, 0x6e, 0x63, 0x65, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x73,
  0x3e, 0x09, 0x3d, 0x20, 0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d,
  0x45, 0x62, 0x6e, 0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x0a, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x27, 0x7b,
  0x27, 0x20, 0x3c, 0x53, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x2d, 0x45, 0x62,
  0x6e, 0x66, 0x2d, 0x49, 0x74, 0x65, 0x6d, 0x3e, 0x2a, 0x5b, 0x74, 0x65,
  0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x73, 0x5d, 0x20, 0x27, 0x7d, 0x27,
  0x0a, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x20,
  0x54, 0x68, 0x65, 0x20, 0x70, 0x61, 0x72, 0x73, 0x65, 0x72, 0x20, 0x64,
  0x65, 0x63, 0x6c, 0x61, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x62,
  0x6c, 0x6f, 0x63, 0x6b, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x09, 0x09,
  0x0a, 0x09, 0x09, 0x3c, 0x50, 0x61, 0x72, 0x73, 0x65, 0x72, 0x2d, 0x42,
  0x6c, 0x6f, 0x63, 0x6b, 0x3e, 0x09, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x70,
  0x61, 0x72, 0x73, 0x65, 0x72, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69,
  0x66, 0x69, 0x65, 0x72, 0x5b, 0x6e, 0x61, 0x6d, 0x65, 0x5d, 0x20, 0x27,
  0x3a, 0x27, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65,
  0x72, 0x5b, 0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x2d, 0x6e,
  0x61, 0x6d, 0x65, 0x5d, 0x20, 0x27, 0x7b, 0x27, 0x20, 0x28, 0x3c, 0x50,
  0x61, 0x72, 0x73, 0x65, 0x72, 0x2d, 0x53, 0x74, 0x61, 0x72, 0x74, 0x53,
  0x79, 0x6d, 0x62, 0x6f, 0x6c, 0x3e, 0x29, 0x2b, 0x5b, 0x73, 0x74, 0x61,
  0x72, 0x74, 0x2d, 0x73, 0x79, 0x6d, 0x62, 0x6f, 0x6c, 0x73, 0x5d, 0x20,
  0x27, 0x7d, 0x27, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x50, 0x61, 0x72, 0x73,
  0x65, 0x72, 0x2d, 0x53, 0x74, 0x61, 0x72, 0x74, 0x53, 0x79, 0x6d, 0x62,
  0x6f, 0x6c, 0x3e, 0x09, 0x09, 0x3d, 0x20, 0x3c, 0x4e, 0x6f, 0x6e, 0x74,
  0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x0a, 0x0a, 0x09, 0x09,
  0x2f, 0x2f, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x20, 0x54, 0x65, 0x73, 0x74,
  0x20, 0x64, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x62, 0x6c, 0x6f, 0x63, 0x6b, 0x0a, 0x09, 0x09, 0x2f, 0x2f, 0x0a, 0x0a,
  0x09, 0x09, 0x3c, 0x54, 0x65, 0x73, 0x74, 0x2d, 0x42, 0x6c, 0x6f, 0x63,
  0x6b, 0x3e, 0x09, 0x09, 0x09, 0x09, 0x3d, 0x20, 0x74, 0x65, 0x73, 0x74,
  0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65, 0x72, 0x5b,
  0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65, 0x2d, 0x6e, 0x61, 0x6d,
  0x65, 0x5d, 0x20, 0x27, 0x7b, 0x27, 0x20, 0x3c, 0x54, 0x65, 0x73, 0x74,
  0x2d, 0x44, 0x65, 0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e,
  0x2a, 0x5b, 0x74, 0x65, 0x73, 0x74, 0x73, 0x5d, 0x20, 0x27, 0x7d, 0x27,
  0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x54, 0x65, 0x73, 0x74, 0x2d, 0x44, 0x65,
  0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x09, 0x09, 0x09,
  0x3d, 0x20, 0x3c, 0x4e, 0x6f, 0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e,
  0x61, 0x6c, 0x3e, 0x20, 0x27, 0x3d, 0x27, 0x20, 0x3c, 0x54, 0x65, 0x73,
  0x74, 0x2d, 0x53, 0x70, 0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74,
  0x69, 0x6f, 0x6e, 0x3e, 0x2b, 0x0a, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x4e, 0x6f, 0x6e, 0x74, 0x65, 0x72,
  0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x20, 0x22, 0x21, 0x3d, 0x22, 0x20,
  0x3c, 0x54, 0x65, 0x73, 0x74, 0x2d, 0x53, 0x70, 0x65, 0x63, 0x69, 0x66,
  0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e, 0x2b, 0x0a, 0x09, 0x09,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x3c, 0x4e, 0x6f,
  0x6e, 0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x6c, 0x3e, 0x20, 0x66,
  0x72, 0x6f, 0x6d, 0x20, 0x3c, 0x54, 0x65, 0x73, 0x74, 0x2d, 0x53, 0x70,
  0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x3e,
  0x2b, 0x0a, 0x0a, 0x09, 0x09, 0x3c, 0x54, 0x65, 0x73, 0x74, 0x2d, 0x53,
  0x70, 0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x3e, 0x09, 0x09, 0x3d, 0x20, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x0a,
  0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x09, 0x7c, 0x20, 0x5b,
  0x3d, 0x3e, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x69, 0x65,
  0x72, 0x20, 0x27, 0x28, 0x27, 0x5d, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74,
  0x69, 0x66, 0x69, 0x65, 0x72, 0x20, 0x27, 0x28, 0x27, 0x20, 0x73, 0x74,
  0x72, 0x69, 0x6e, 0x67, 0x20, 0x27, 0x29, 0x27, 0x0a, 0x0a, 0x09, 0x7d,
  0x0a, 0x7d, 0x0a
};
unsigned int definition_tp_len = 5895;
