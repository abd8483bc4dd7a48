// generated by tools/gen_ctor.py
#define CT8_0 \
 E("mat2x2<float>(s,s,s,s)",mat<float,2,2,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat2x2<float>(v2,q2)",mat<float,2,2,AV<OWN,float,2>,AV<VSWZ,float,2>>) \
 E("mat2x2<float>(z2,z2)",mat<float,2,2,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("mat2x2<double>(w1_double,s_double,p4_double)",mat<double,2,2,AV<VIEW,double,1>,AS<double>,AV<OVSWZ,double,4>>) \
 E("mat2x2<float>(w2,v3)",mat<float,2,2,AV<VIEW,float,2>,AV<OWN,float,3>>) \
 E("mat2x2<double>(v3_int,v1)",mat<double,2,2,AV<OWN,int,3>,AV<OWN,float,1>>) \
 E("mat2x2<float>(s_double,s,q2_double)",mat<float,2,2,AS<double>,AS<float>,AV<VSWZ,double,2>>) \
 E("mat2x2<double>(z3,z2_double)",mat<double,2,2,AV<SWZ,float,3>,AV<SWZ,double,2>>) \
 E("mat2x3<float>(v3,v3)",mat<float,2,3,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("mat2x3<double>(z2_double,v4_double)",mat<double,2,3,AV<SWZ,double,2>,AV<OWN,double,4>>) \
 E("mat2x3<float>(z3,q3)",mat<float,2,3,AV<SWZ,float,3>,AV<VSWZ,float,3>>) \
 E("mat2x3<double>(q2_double,z3_double,w4_double)",mat<double,2,3,AV<VSWZ,double,2>,AV<SWZ,double,3>,AV<VIEW,double,4>>) \
 E("mat2x3<float>(s_int,v4,o3_int)",mat<float,2,3,AS<int>,AV<OWN,float,4>,AV<OVIEW,int,3>>) \
 E("mat2x3<double>(q3_int,v3_int)",mat<double,2,3,AV<VSWZ,int,3>,AV<OWN,int,3>>) \
 E("mat2x3<float>(w4_int,o3_int)",mat<float,2,3,AV<VIEW,int,4>,AV<OVIEW,int,3>>) \
 E("mat2x4<double>(s_double,v1_double,z1_double,w1_double,s_double,s_double,w1_double,s_double)",mat<double,2,4,AS<double>,AV<OWN,double,1>,AV<SWZ,double,1>,AV<VIEW,double,1>,AS<double>,AS<double>,AV<VIEW,double,1>,AS<double>>) \
 E("mat2x4<float>(w4,z3,z4)",mat<float,2,4,AV<VIEW,float,4>,AV<SWZ,float,3>,AV<SWZ,float,4>>) \
 E("mat2x4<double>(z1_double,z4_double,z1_double,v4_double)",mat<double,2,4,AV<SWZ,double,1>,AV<SWZ,double,4>,AV<SWZ,double,1>,AV<OWN,double,4>>) \
 E("mat2x4<float>(z4,q2,q3)",mat<float,2,4,AV<SWZ,float,4>,AV<VSWZ,float,2>,AV<VSWZ,float,3>>) \
 E("mat2x4<double>(v2_double,v2_double,z2,w4)",mat<double,2,4,AV<OWN,double,2>,AV<OWN,double,2>,AV<SWZ,float,2>,AV<VIEW,float,4>>) \
 E("mat2x4<float>(s,v3,v4)",mat<float,2,4,AS<float>,AV<OWN,float,3>,AV<OWN,float,4>>) \
 E("mat2x4<double>(v2,w1_int,z4_double,q3)",mat<double,2,4,AV<OWN,float,2>,AV<VIEW,int,1>,AV<SWZ,double,4>,AV<VSWZ,float,3>>) \
 E("mat3x2<double>(s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,3,2,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat3x2<double>(z2_double,q2_double,z2_double)",mat<double,3,2,AV<SWZ,double,2>,AV<VSWZ,double,2>,AV<SWZ,double,2>>) \
 E("mat3x2<float>(z2,p4)",mat<float,3,2,AV<SWZ,float,2>,AV<OVSWZ,float,4>>) \
 E("mat3x2<double>(z2_double,z2_double,o3_double)",mat<double,3,2,AV<SWZ,double,2>,AV<SWZ,double,2>,AV<OVIEW,double,3>>) \
 E("mat3x2<float>(z2_int,w1,v4)",mat<float,3,2,AV<SWZ,int,2>,AV<VIEW,float,1>,AV<OWN,float,4>>) \
 E("mat3x2<double>(p4_int,q2_int)",mat<double,3,2,AV<OVSWZ,int,4>,AV<VSWZ,int,2>>) \
 E("mat3x2<float>(z4,w4)",mat<float,3,2,AV<SWZ,float,4>,AV<VIEW,float,4>>) \
 E("mat3x3<float>(w1,z1,s,z1,v1,s,z1,w1,w1)",mat<float,3,3,AV<VIEW,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<VIEW,float,1>,AV<VIEW,float,1>>) \
 E("mat3x3<double>(v3_double,v3_double,v3_double)",mat<double,3,3,AV<OWN,double,3>,AV<OWN,double,3>,AV<OWN,double,3>>) \
 E("mat3x3<double>(v3_double,q2_double,w1_double,v1_double,w4_double)",mat<double,3,3,AV<OWN,double,3>,AV<VSWZ,double,2>,AV<VIEW,double,1>,AV<OWN,double,1>,AV<VIEW,double,4>>) \
 E("mat3x3<float>(v3,w1,o3,w1,w1)",mat<float,3,3,AV<OWN,float,3>,AV<VIEW,float,1>,AV<OVIEW,float,3>,AV<VIEW,float,1>,AV<VIEW,float,1>>) \
 E("mat3x3<double>(v4,z3_int,z2_int)",mat<double,3,3,AV<OWN,float,4>,AV<SWZ,int,3>,AV<SWZ,int,2>>) \
 E("mat3x3<float>(z3,s,w1,q2,q3)",mat<float,3,3,AV<SWZ,float,3>,AS<float>,AV<VIEW,float,1>,AV<VSWZ,float,2>,AV<VSWZ,float,3>>) \
 E("mat3x3<double>(q3,z2_int,o3_double,o3_int)",mat<double,3,3,AV<VSWZ,float,3>,AV<SWZ,int,2>,AV<OVIEW,double,3>,AV<OVIEW,int,3>>) \
 E("mat3x4<float>(s,s,s,s,s,s,s,s,s,s,s,s)",mat<float,3,4,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat3x4<float>(p4,p4,p4)",mat<float,3,4,AV<OVSWZ,float,4>,AV<OVSWZ,float,4>,AV<OVSWZ,float,4>>) \
 E("mat3x4<float>(p4,q3,p4,o3)",mat<float,3,4,AV<OVSWZ,float,4>,AV<VSWZ,float,3>,AV<OVSWZ,float,4>,AV<OVIEW,float,3>>) \
 E("mat3x4<double>(w4_double,v3_double,v1_double,z4_double)",mat<double,3,4,AV<VIEW,double,4>,AV<OWN,double,3>,AV<OWN,double,1>,AV<SWZ,double,4>>) \
 E("mat3x4<float>(v3_double,z4,w2,z1_int,o3)",mat<float,3,4,AV<OWN,double,3>,AV<SWZ,float,4>,AV<VIEW,float,2>,AV<SWZ,int,1>,AV<OVIEW,float,3>>) \
 E("mat3x4<double>(v1,v3_int,w2,p4,z1,q2)",mat<double,3,4,AV<OWN,float,1>,AV<OWN,int,3>,AV<VIEW,float,2>,AV<OVSWZ,float,4>,AV<SWZ,float,1>,AV<VSWZ,float,2>>) \
 E("mat3x4<float>(v1,p4,z2_double,w2,p4_double)",mat<float,3,4,AV<OWN,float,1>,AV<OVSWZ,float,4>,AV<SWZ,double,2>,AV<VIEW,float,2>,AV<OVSWZ,double,4>>) \
 E("mat3x4<double>(s,z3_int,z1,p4_int,z1_double,w4)",mat<double,3,4,AS<float>,AV<SWZ,int,3>,AV<SWZ,float,1>,AV<OVSWZ,int,4>,AV<SWZ,double,1>,AV<VIEW,float,4>>) \
 E("mat4x2<float>(v2,v2,v2,v2)",mat<float,4,2,AV<OWN,float,2>,AV<OWN,float,2>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("mat4x2<double>(v3_double,p4_double,w2_double)",mat<double,4,2,AV<OWN,double,3>,AV<OVSWZ,double,4>,AV<VIEW,double,2>>) \
 E("mat4x2<float>(s,z2,w4,w2)",mat<float,4,2,AS<float>,AV<SWZ,float,2>,AV<VIEW,float,4>,AV<VIEW,float,2>>) \
 E("mat4x2<double>(q2_double,q2_double,p4_double)",mat<double,4,2,AV<VSWZ,double,2>,AV<VSWZ,double,2>,AV<OVSWZ,double,4>>) \
 E("mat4x2<float>(s_double,q3_int,v3,o3_double)",mat<float,4,2,AS<double>,AV<VSWZ,int,3>,AV<OWN,float,3>,AV<OVIEW,double,3>>) \
 E("mat4x2<double>(v4_int,z4)",mat<double,4,2,AV<OWN,int,4>,AV<SWZ,float,4>>) \
 E("mat4x2<float>(p4_int,v2_int,s,v2_double)",mat<float,4,2,AV<OVSWZ,int,4>,AV<OWN,int,2>,AS<float>,AV<OWN,double,2>>) \
 E("mat4x3<double>(s_double,s_double,s_double,w1_double,z1_double,w1_double,w1_double,s_double,z1_double,z1_double,v1_double,s_double)",mat<double,4,3,AS<double>,AS<double>,AS<double>,AV<VIEW,double,1>,AV<SWZ,double,1>,AV<VIEW,double,1>,AV<VIEW,double,1>,AS<double>,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<OWN,double,1>,AS<double>>) \
 E("mat4x3<float>(w2,w4,v2,s,z2,w1)",mat<float,4,3,AV<VIEW,float,2>,AV<VIEW,float,4>,AV<OWN,float,2>,AS<float>,AV<SWZ,float,2>,AV<VIEW,float,1>>) \
 E("mat4x3<double>(s_double,s_double,v3_double,v4_double,q2_double,z3_double)",mat<double,4,3,AS<double>,AS<double>,AV<OWN,double,3>,AV<OWN,double,4>,AV<VSWZ,double,2>,AV<SWZ,double,3>>) \
 E("mat4x3<float>(w2,z4,v3,o3)",mat<float,4,3,AV<VIEW,float,2>,AV<SWZ,float,4>,AV<OWN,float,3>,AV<OVIEW,float,3>>) \
 E("mat4x3<double>(v4,z3,w2_double,w1,v4)",mat<double,4,3,AV<OWN,float,4>,AV<SWZ,float,3>,AV<VIEW,double,2>,AV<VIEW,float,1>,AV<OWN,float,4>>) \
 E("mat4x3<float>(p4_double,v2,q2_int,p4_double)",mat<float,4,3,AV<OVSWZ,double,4>,AV<OWN,float,2>,AV<VSWZ,int,2>,AV<OVSWZ,double,4>>) \
 E("mat4x3<double>(s_int,o3_int,s,z1,v2_double,v1_double,z4)",mat<double,4,3,AS<int>,AV<OVIEW,int,3>,AS<float>,AV<SWZ,float,1>,AV<OWN,double,2>,AV<OWN,double,1>,AV<SWZ,float,4>>) \
 E("mat4x4<double>(s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,4,4,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat4x4<double>(v4_double,z4_double,z4_double,z4_double)",mat<double,4,4,AV<OWN,double,4>,AV<SWZ,double,4>,AV<SWZ,double,4>,AV<SWZ,double,4>>) \
 E("mat4x4<float>(w1,o3,w1,o3,z2,v2,q3,z2)",mat<float,4,4,AV<VIEW,float,1>,AV<OVIEW,float,3>,AV<VIEW,float,1>,AV<OVIEW,float,3>,AV<SWZ,float,2>,AV<OWN,float,2>,AV<VSWZ,float,3>,AV<SWZ,float,2>>) \
 E("mat4x4<double>(q3_double,v4_double,z4_double,w4_double,z1_double)",mat<double,4,4,AV<VSWZ,double,3>,AV<OWN,double,4>,AV<SWZ,double,4>,AV<VIEW,double,4>,AV<SWZ,double,1>>) \
 E("mat4x4<float>(v1_int,q2,p4,z1,z2_double,w1,s_double,w1_int,s,o3_double)",mat<float,4,4,AV<OWN,int,1>,AV<VSWZ,float,2>,AV<OVSWZ,float,4>,AV<SWZ,float,1>,AV<SWZ,double,2>,AV<VIEW,float,1>,AS<double>,AV<VIEW,int,1>,AS<float>,AV<OVIEW,double,3>>) \
 E("mat4x4<double>(v2_int,v3,v2_double,w2,q2,v1,z4_double)",mat<double,4,4,AV<OWN,int,2>,AV<OWN,float,3>,AV<OWN,double,2>,AV<VIEW,float,2>,AV<VSWZ,float,2>,AV<OWN,float,1>,AV<SWZ,double,4>>) \
 E("mat4x4<float>(z2_int,v3_double,v4,z2,p4_int,w2_double)",mat<float,4,4,AV<SWZ,int,2>,AV<OWN,double,3>,AV<OWN,float,4>,AV<SWZ,float,2>,AV<OVSWZ,int,4>,AV<VIEW,double,2>>)
#define CT8_1 \
 E("mat2x2<float>(s,v1,z1,z1)",mat<float,2,2,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("mat2x2<double>(v2_double,v2_double)",mat<double,2,2,AV<OWN,double,2>,AV<OWN,double,2>>) \
 E("mat2x2<double>(v2_double,q2_double)",mat<double,2,2,AV<OWN,double,2>,AV<VSWZ,double,2>>) \
 E("mat2x2<float>(v4)",mat<float,2,2,AV<OWN,float,4>>) \
 E("mat2x2<double>(w2_int,v3_int)",mat<double,2,2,AV<VIEW,int,2>,AV<OWN,int,3>>) \
 E("mat2x2<float>(q3_int,s)",mat<float,2,2,AV<VSWZ,int,3>,AS<float>>) \
 E("mat2x2<double>(s,z1,w2)",mat<double,2,2,AS<float>,AV<SWZ,float,1>,AV<VIEW,float,2>>) \
 E("mat2x3<float>(s,s,s,s,s,s)",mat<float,2,3,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat2x3<float>(q3,z3)",mat<float,2,3,AV<VSWZ,float,3>,AV<SWZ,float,3>>) \
 E("mat2x3<float>(q2,w1,q2,z1)",mat<float,2,3,AV<VSWZ,float,2>,AV<VIEW,float,1>,AV<VSWZ,float,2>,AV<SWZ,float,1>>) \
 E("mat2x3<double>(z3_double,v3_double)",mat<double,2,3,AV<SWZ,double,3>,AV<OWN,double,3>>) \
 E("mat2x3<float>(q3,z3_int)",mat<float,2,3,AV<VSWZ,float,3>,AV<SWZ,int,3>>) \
 E("mat2x3<double>(z1,p4_double,q3_double)",mat<double,2,3,AV<SWZ,float,1>,AV<OVSWZ,double,4>,AV<VSWZ,double,3>>) \
 E("mat2x3<float>(w2_int,z4)",mat<float,2,3,AV<VIEW,int,2>,AV<SWZ,float,4>>) \
 E("mat2x3<double>(v4_int,z3)",mat<double,2,3,AV<OWN,int,4>,AV<SWZ,float,3>>) \
 E("mat2x4<float>(v4,v4)",mat<float,2,4,AV<OWN,float,4>,AV<OWN,float,4>>) \
 E("mat2x4<double>(z4_double,z3_double,z4_double)",mat<double,2,4,AV<SWZ,double,4>,AV<SWZ,double,3>,AV<SWZ,double,4>>) \
 E("mat2x4<float>(w4,z2,q2)",mat<float,2,4,AV<VIEW,float,4>,AV<SWZ,float,2>,AV<VSWZ,float,2>>) \
 E("mat2x4<double>(v4_double,w2_double,q3_double)",mat<double,2,4,AV<OWN,double,4>,AV<VIEW,double,2>,AV<VSWZ,double,3>>) \
 E("mat2x4<float>(o3_int,w2,v4_double)",mat<float,2,4,AV<OVIEW,int,3>,AV<VIEW,float,2>,AV<OWN,double,4>>) \
 E("mat2x4<double>(z1,v3_double,p4)",mat<double,2,4,AV<SWZ,float,1>,AV<OWN,double,3>,AV<OVSWZ,float,4>>) \
 E("mat2x4<float>(w1,w2,w4_double,q3_double)",mat<float,2,4,AV<VIEW,float,1>,AV<VIEW,float,2>,AV<VIEW,double,4>,AV<VSWZ,double,3>>) \
 E("mat3x2<double>(z1_double,z1_double,z1_double,v1_double,s_double,v1_double)",mat<double,3,2,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<OWN,double,1>,AS<double>,AV<OWN,double,1>>) \
 E("mat3x2<float>(v4,w4)",mat<float,3,2,AV<OWN,float,4>,AV<VIEW,float,4>>) \
 E("mat3x2<double>(v2_double,v4_double)",mat<double,3,2,AV<OWN,double,2>,AV<OWN,double,4>>) \
 E("mat3x2<float>(v3,v1,z4)",mat<float,3,2,AV<OWN,float,3>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("mat3x2<double>(w2_double,z1_int,w4)",mat<double,3,2,AV<VIEW,double,2>,AV<SWZ,int,1>,AV<VIEW,float,4>>) \
 E("mat3x2<float>(z2,q3,w4)",mat<float,3,2,AV<SWZ,float,2>,AV<VSWZ,float,3>,AV<VIEW,float,4>>) \
 E("mat3x2<double>(v4_int,p4)",mat<double,3,2,AV<OWN,int,4>,AV<OVSWZ,float,4>>) \
 E("mat3x3<double>(s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,3,3,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat3x3<double>(q3_double,q3_double,v3_double)",mat<double,3,3,AV<VSWZ,double,3>,AV<VSWZ,double,3>,AV<OWN,double,3>>) \
 E("mat3x3<float>(v4,v2,v1,o3)",mat<float,3,3,AV<OWN,float,4>,AV<OWN,float,2>,AV<OWN,float,1>,AV<OVIEW,float,3>>) \
 E("mat3x3<double>(q3_double,v1_double,q3_double,z1_double,w1_double)",mat<double,3,3,AV<VSWZ,double,3>,AV<OWN,double,1>,AV<VSWZ,double,3>,AV<SWZ,double,1>,AV<VIEW,double,1>>) \
 E("mat3x3<float>(z2_int,w1,p4_int,v3)",mat<float,3,3,AV<SWZ,int,2>,AV<VIEW,float,1>,AV<OVSWZ,int,4>,AV<OWN,float,3>>) \
 E("mat3x3<double>(o3_double,s,v1,q2,v3_int)",mat<double,3,3,AV<OVIEW,double,3>,AS<float>,AV<OWN,float,1>,AV<VSWZ,float,2>,AV<OWN,int,3>>) \
 E("mat3x3<float>(q2_int,q2,z1_double,q2_double,w1,q2)",mat<float,3,3,AV<VSWZ,int,2>,AV<VSWZ,float,2>,AV<SWZ,double,1>,AV<VSWZ,double,2>,AV<VIEW,float,1>,AV<VSWZ,float,2>>) \
 E("mat3x4<float>(s,w1,z1,v1,w1,s,w1,s,z1,v1,s,z1)",mat<float,3,4,AS<float>,AV<VIEW,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<VIEW,float,1>,AS<float>,AV<VIEW,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("mat3x4<double>(v4_double,v4_double,v4_double)",mat<double,3,4,AV<OWN,double,4>,AV<OWN,double,4>,AV<OWN,double,4>>) \
 E("mat3x4<double>(z4_double,o3_double,w4_double,q3_double)",mat<double,3,4,AV<SWZ,double,4>,AV<OVIEW,double,3>,AV<VIEW,double,4>,AV<VSWZ,double,3>>) \
 E("mat3x4<float>(q3,q3,v4,z1,q3)",mat<float,3,4,AV<VSWZ,float,3>,AV<VSWZ,float,3>,AV<OWN,float,4>,AV<SWZ,float,1>,AV<VSWZ,float,3>>) \
 E("mat3x4<double>(v3_double,z4_double,q2_int,w1,q3)",mat<double,3,4,AV<OWN,double,3>,AV<SWZ,double,4>,AV<VSWZ,int,2>,AV<VIEW,float,1>,AV<VSWZ,float,3>>) \
 E("mat3x4<float>(z4,v2,p4_int,z3_double)",mat<float,3,4,AV<SWZ,float,4>,AV<OWN,float,2>,AV<OVSWZ,int,4>,AV<SWZ,double,3>>) \
 E("mat3x4<double>(z1,v4_int,q2,v2_int,z4)",mat<double,3,4,AV<SWZ,float,1>,AV<OWN,int,4>,AV<VSWZ,float,2>,AV<OWN,int,2>,AV<SWZ,float,4>>) \
 E("mat4x2<float>(s,s,s,s,s,s,s,s)",mat<float,4,2,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat4x2<float>(q2,q2,q2,z2)",mat<float,4,2,AV<VSWZ,float,2>,AV<VSWZ,float,2>,AV<VSWZ,float,2>,AV<SWZ,float,2>>) \
 E("mat4x2<float>(s,z1,z1,z2,z2,w2)",mat<float,4,2,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,2>,AV<VIEW,float,2>>) \
 E("mat4x2<double>(v1_double,w2_double,z4_double,z2_double)",mat<double,4,2,AV<OWN,double,1>,AV<VIEW,double,2>,AV<SWZ,double,4>,AV<SWZ,double,2>>) \
 E("mat4x2<float>(s_double,v1,w2_double,z2,z4)",mat<float,4,2,AS<double>,AV<OWN,float,1>,AV<VIEW,double,2>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("mat4x2<double>(s,q3,z3,q3)",mat<double,4,2,AS<float>,AV<VSWZ,float,3>,AV<SWZ,float,3>,AV<VSWZ,float,3>>) \
 E("mat4x2<float>(q3_int,v2,q3)",mat<float,4,2,AV<VSWZ,int,3>,AV<OWN,float,2>,AV<VSWZ,float,3>>) \
 E("mat4x2<double>(w4,q2,v1,z2_double)",mat<double,4,2,AV<VIEW,float,4>,AV<VSWZ,float,2>,AV<OWN,float,1>,AV<SWZ,double,2>>) \
 E("mat4x3<float>(v3,v3,v3,v3)",mat<float,4,3,AV<OWN,float,3>,AV<OWN,float,3>,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("mat4x3<double>(v2_double,w4_double,q2_double,z1_double,q2_double,w1_double)",mat<double,4,3,AV<OWN,double,2>,AV<VIEW,double,4>,AV<VSWZ,double,2>,AV<SWZ,double,1>,AV<VSWZ,double,2>,AV<VIEW,double,1>>) \
 E("mat4x3<float>(z4,q3,o3,z3)",mat<float,4,3,AV<SWZ,float,4>,AV<VSWZ,float,3>,AV<OVIEW,float,3>,AV<SWZ,float,3>>) \
 E("mat4x3<double>(v2_double,v4_double,q3_double,q3_double)",mat<double,4,3,AV<OWN,double,2>,AV<OWN,double,4>,AV<VSWZ,double,3>,AV<VSWZ,double,3>>) \
 E("mat4x3<float>(v2,q3,s_int,p4_double,q2_double)",mat<float,4,3,AV<OWN,float,2>,AV<VSWZ,float,3>,AS<int>,AV<OVSWZ,double,4>,AV<VSWZ,double,2>>) \
 E("mat4x3<double>(p4,w2,z2,w4_double)",mat<double,4,3,AV<OVSWZ,float,4>,AV<VIEW,float,2>,AV<SWZ,float,2>,AV<VIEW,double,4>>) \
 E("mat4x3<float>(p4,q3,v3,z1,p4_double)",mat<float,4,3,AV<OVSWZ,float,4>,AV<VSWZ,float,3>,AV<OWN,float,3>,AV<SWZ,float,1>,AV<OVSWZ,double,4>>) \
 E("mat4x4<double>(s_double,w1_double,z1_double,s_double,v1_double,s_double,v1_double,w1_double,v1_double,s_double,z1_double,s_double,v1_double,w1_double,w1_double,v1_double)",mat<double,4,4,AS<double>,AV<VIEW,double,1>,AV<SWZ,double,1>,AS<double>,AV<OWN,double,1>,AS<double>,AV<OWN,double,1>,AV<VIEW,double,1>,AV<OWN,double,1>,AS<double>,AV<SWZ,double,1>,AS<double>,AV<OWN,double,1>,AV<VIEW,double,1>,AV<VIEW,double,1>,AV<OWN,double,1>>) \
 E("mat4x4<float>(o3,s,z4,z2,v2,v1,q3)",mat<float,4,4,AV<OVIEW,float,3>,AS<float>,AV<SWZ,float,4>,AV<SWZ,float,2>,AV<OWN,float,2>,AV<OWN,float,1>,AV<VSWZ,float,3>>) \
 E("mat4x4<double>(z1_double,z3_double,z1_double,v3_double,q2_double,w2_double,v3_double,w2_double)",mat<double,4,4,AV<SWZ,double,1>,AV<SWZ,double,3>,AV<SWZ,double,1>,AV<OWN,double,3>,AV<VSWZ,double,2>,AV<VIEW,double,2>,AV<OWN,double,3>,AV<VIEW,double,2>>) \
 E("mat4x4<float>(z4,w2,z4,z3,z4)",mat<float,4,4,AV<SWZ,float,4>,AV<VIEW,float,2>,AV<SWZ,float,4>,AV<SWZ,float,3>,AV<SWZ,float,4>>) \
 E("mat4x4<double>(s,q2,z4,w1,v2,z1_double,z1,s,z1_int,v3_int)",mat<double,4,4,AS<float>,AV<VSWZ,float,2>,AV<SWZ,float,4>,AV<VIEW,float,1>,AV<OWN,float,2>,AV<SWZ,double,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,int,1>,AV<OWN,int,3>>) \
 E("mat4x4<float>(z3_int,z2,z4,s_double,o3_double,w2,v4_double)",mat<float,4,4,AV<SWZ,int,3>,AV<SWZ,float,2>,AV<SWZ,float,4>,AS<double>,AV<OVIEW,double,3>,AV<VIEW,float,2>,AV<OWN,double,4>>) \
 E("mat4x4<double>(v2_int,z3,z4,q2,p4,q2_int)",mat<double,4,4,AV<OWN,int,2>,AV<SWZ,float,3>,AV<SWZ,float,4>,AV<VSWZ,float,2>,AV<OVSWZ,float,4>,AV<VSWZ,int,2>>)
#define CT8_2 \
 E("mat2x2<double>(s_double,s_double,s_double,s_double)",mat<double,2,2,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat2x2<double>(q2_double,q2_double)",mat<double,2,2,AV<VSWZ,double,2>,AV<VSWZ,double,2>>) \
 E("mat2x2<float>(v3,v2)",mat<float,2,2,AV<OWN,float,3>,AV<OWN,float,2>>) \
 E("mat2x2<double>(w4_double)",mat<double,2,2,AV<VIEW,double,4>>) \
 E("mat2x2<float>(o3,w1)",mat<float,2,2,AV<OVIEW,float,3>,AV<VIEW,float,1>>) \
 E("mat2x2<double>(q3,s)",mat<double,2,2,AV<VSWZ,float,3>,AS<float>>) \
 E("mat2x2<float>(q2_int,v4_int)",mat<float,2,2,AV<VSWZ,int,2>,AV<OWN,int,4>>) \
 E("mat2x3<float>(w1,v1,s,w1,w1,z1)",mat<float,2,3,AV<VIEW,float,1>,AV<OWN,float,1>,AS<float>,AV<VIEW,float,1>,AV<VIEW,float,1>,AV<SWZ,float,1>>) \
 E("mat2x3<double>(v3_double,v3_double)",mat<double,2,3,AV<OWN,double,3>,AV<OWN,double,3>>) \
 E("mat2x3<double>(v2_double,v1_double,q2_double,s_double)",mat<double,2,3,AV<OWN,double,2>,AV<OWN,double,1>,AV<VSWZ,double,2>,AS<double>>) \
 E("mat2x3<float>(w1,v1,o3,w4)",mat<float,2,3,AV<VIEW,float,1>,AV<OWN,float,1>,AV<OVIEW,float,3>,AV<VIEW,float,4>>) \
 E("mat2x3<double>(q3_double,v3)",mat<double,2,3,AV<VSWZ,double,3>,AV<OWN,float,3>>) \
 E("mat2x3<float>(v1,z2,z4)",mat<float,2,3,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("mat2x3<double>(w2_double,z4_int)",mat<double,2,3,AV<VIEW,double,2>,AV<SWZ,int,4>>) \
 E("mat2x4<float>(s,s,s,s,s,s,s,s)",mat<float,2,4,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat2x4<float>(p4,v4)",mat<float,2,4,AV<OVSWZ,float,4>,AV<OWN,float,4>>) \
 E("mat2x4<float>(z1,w1,s,q2,w1,q3)",mat<float,2,4,AV<SWZ,float,1>,AV<VIEW,float,1>,AS<float>,AV<VSWZ,float,2>,AV<VIEW,float,1>,AV<VSWZ,float,3>>) \
 E("mat2x4<double>(z4_double,w2_double,v2_double)",mat<double,2,4,AV<SWZ,double,4>,AV<VIEW,double,2>,AV<OWN,double,2>>) \
 E("mat2x4<float>(v1,w2_int,z3_double,w2_int)",mat<float,2,4,AV<OWN,float,1>,AV<VIEW,int,2>,AV<SWZ,double,3>,AV<VIEW,int,2>>) \
 E("mat2x4<double>(z3_double,q2_int,p4)",mat<double,2,4,AV<SWZ,double,3>,AV<VSWZ,int,2>,AV<OVSWZ,float,4>>) \
 E("mat2x4<float>(v3,q3,o3)",mat<float,2,4,AV<OWN,float,3>,AV<VSWZ,float,3>,AV<OVIEW,float,3>>) \
 E("mat2x4<double>(v1,v2,w4,q3_double)",mat<double,2,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<VIEW,float,4>,AV<VSWZ,double,3>>) \
 E("mat3x2<float>(v2,v2,v2)",mat<float,3,2,AV<OWN,float,2>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("mat3x2<double>(v4_double,z4_double)",mat<double,3,2,AV<OWN,double,4>,AV<SWZ,double,4>>) \
 E("mat3x2<float>(w2,w2,p4)",mat<float,3,2,AV<VIEW,float,2>,AV<VIEW,float,2>,AV<OVSWZ,float,4>>) \
 E("mat3x2<double>(v3_double,v1_double,p4_double)",mat<double,3,2,AV<OWN,double,3>,AV<OWN,double,1>,AV<OVSWZ,double,4>>) \
 E("mat3x2<float>(w4,z1,v1_int)",mat<float,3,2,AV<VIEW,float,4>,AV<SWZ,float,1>,AV<OWN,int,1>>) \
 E("mat3x2<double>(q2_int,o3,z4)",mat<double,3,2,AV<VSWZ,int,2>,AV<OVIEW,float,3>,AV<SWZ,float,4>>) \
 E("mat3x2<float>(o3_double,v4)",mat<float,3,2,AV<OVIEW,double,3>,AV<OWN,float,4>>) \
 E("mat3x3<double>(w1_double,s_double,z1_double,s_double,v1_double,v1_double,s_double,s_double,z1_double)",mat<double,3,3,AV<VIEW,double,1>,AS<double>,AV<SWZ,double,1>,AS<double>,AV<OWN,double,1>,AV<OWN,double,1>,AS<double>,AS<double>,AV<SWZ,double,1>>) \
 E("mat3x3<float>(q2,z4,v2,z2)",mat<float,3,3,AV<VSWZ,float,2>,AV<SWZ,float,4>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("mat3x3<double>(p4_double,v2_double,s_double,o3_double)",mat<double,3,3,AV<OVSWZ,double,4>,AV<OWN,double,2>,AS<double>,AV<OVIEW,double,3>>) \
 E("mat3x3<float>(q3,z1,w1,z2,v2)",mat<float,3,3,AV<VSWZ,float,3>,AV<SWZ,float,1>,AV<VIEW,float,1>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("mat3x3<double>(w2,s,p4_double,z3)",mat<double,3,3,AV<VIEW,float,2>,AS<float>,AV<OVSWZ,double,4>,AV<SWZ,float,3>>) \
 E("mat3x3<float>(v3_double,o3_double,q3_double)",mat<float,3,3,AV<OWN,double,3>,AV<OVIEW,double,3>,AV<VSWZ,double,3>>) \
 E("mat3x3<double>(z2_double,q2_int,v1_double,w2_int,w1,z2_int)",mat<double,3,3,AV<SWZ,double,2>,AV<VSWZ,int,2>,AV<OWN,double,1>,AV<VIEW,int,2>,AV<VIEW,float,1>,AV<SWZ,int,2>>) \
 E("mat3x4<double>(s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,3,4,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat3x4<double>(p4_double,p4_double,w4_double)",mat<double,3,4,AV<OVSWZ,double,4>,AV<OVSWZ,double,4>,AV<VIEW,double,4>>) \
 E("mat3x4<float>(z2,v1,v2,w1,z2,w2,z3)",mat<float,3,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,2>,AV<VIEW,float,1>,AV<SWZ,float,2>,AV<VIEW,float,2>,AV<SWZ,float,3>>) \
 E("mat3x4<double>(z3_double,o3_double,z4_double,z1_double,o3_double)",mat<double,3,4,AV<SWZ,double,3>,AV<OVIEW,double,3>,AV<SWZ,double,4>,AV<SWZ,double,1>,AV<OVIEW,double,3>>) \
 E("mat3x4<float>(q3_double,q2_double,w4,v2,v4_double)",mat<float,3,4,AV<VSWZ,double,3>,AV<VSWZ,double,2>,AV<VIEW,float,4>,AV<OWN,float,2>,AV<OWN,double,4>>) \
 E("mat3x4<double>(p4,q2,w4,o3_double)",mat<double,3,4,AV<OVSWZ,float,4>,AV<VSWZ,float,2>,AV<VIEW,float,4>,AV<OVIEW,double,3>>) \
 E("mat3x4<float>(o3_int,p4_int,w1_int,z1_int,w1_double,w2)",mat<float,3,4,AV<OVIEW,int,3>,AV<OVSWZ,int,4>,AV<VIEW,int,1>,AV<SWZ,int,1>,AV<VIEW,double,1>,AV<VIEW,float,2>>) \
 E("mat4x2<float>(s,v1,v1,v1,z1,s,v1,v1)",mat<float,4,2,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("mat4x2<double>(v2_double,v2_double,v2_double,v2_double)",mat<double,4,2,AV<OWN,double,2>,AV<OWN,double,2>,AV<OWN,double,2>,AV<OWN,double,2>>) \
 E("mat4x2<double>(s_double,w1_double,v1_double,w2_double,w2_double,v2_double)",mat<double,4,2,AS<double>,AV<VIEW,double,1>,AV<OWN,double,1>,AV<VIEW,double,2>,AV<VIEW,double,2>,AV<OWN,double,2>>) \
 E("mat4x2<float>(z3,w4,w1)",mat<float,4,2,AV<SWZ,float,3>,AV<VIEW,float,4>,AV<VIEW,float,1>>) \
 E("mat4x2<double>(v1_double,s_int,q2_int,v2,v4)",mat<double,4,2,AV<OWN,double,1>,AS<int>,AV<VSWZ,int,2>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("mat4x2<float>(s,w2_double,w2,v2,w4_int)",mat<float,4,2,AS<float>,AV<VIEW,double,2>,AV<VIEW,float,2>,AV<OWN,float,2>,AV<VIEW,int,4>>) \
 E("mat4x2<double>(v3,v2_int,v3_double)",mat<double,4,2,AV<OWN,float,3>,AV<OWN,int,2>,AV<OWN,double,3>>) \
 E("mat4x3<float>(s,s,s,s,s,s,s,s,s,s,s,s)",mat<float,4,3,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat4x3<float>(z3,q3,o3,v3)",mat<float,4,3,AV<SWZ,float,3>,AV<VSWZ,float,3>,AV<OVIEW,float,3>,AV<OWN,float,3>>) \
 E("mat4x3<float>(w1,v3,o3,q3,q3)",mat<float,4,3,AV<VIEW,float,1>,AV<OWN,float,3>,AV<OVIEW,float,3>,AV<VSWZ,float,3>,AV<VSWZ,float,3>>) \
 E("mat4x3<double>(z4_double,z3_double,q3_double,z3_double)",mat<double,4,3,AV<SWZ,double,4>,AV<SWZ,double,3>,AV<VSWZ,double,3>,AV<SWZ,double,3>>) \
 E("mat4x3<float>(v2_int,w4_double,v1,p4_double,v4_int)",mat<float,4,3,AV<OWN,int,2>,AV<VIEW,double,4>,AV<OWN,float,1>,AV<OVSWZ,double,4>,AV<OWN,int,4>>) \
 E("mat4x3<double>(q2_double,v3,v1_int,v4,q2_double)",mat<double,4,3,AV<VSWZ,double,2>,AV<OWN,float,3>,AV<OWN,int,1>,AV<OWN,float,4>,AV<VSWZ,double,2>>) \
 E("mat4x3<float>(z1_double,q2,z4_double,z2_double,v4_double)",mat<float,4,3,AV<SWZ,double,1>,AV<VSWZ,float,2>,AV<SWZ,double,4>,AV<SWZ,double,2>,AV<OWN,double,4>>) \
 E("mat4x3<double>(z4,o3_int,z3_double,z1_int,w4)",mat<double,4,3,AV<SWZ,float,4>,AV<OVIEW,int,3>,AV<SWZ,double,3>,AV<SWZ,int,1>,AV<VIEW,float,4>>) \
 E("mat4x4<float>(v4,v4,v4,v4)",mat<float,4,4,AV<OWN,float,4>,AV<OWN,float,4>,AV<OWN,float,4>,AV<OWN,float,4>>) \
 E("mat4x4<double>(q3_double,s_double,z4_double,z2_double,z2_double,w1_double,v3_double)",mat<double,4,4,AV<VSWZ,double,3>,AS<double>,AV<SWZ,double,4>,AV<SWZ,double,2>,AV<SWZ,double,2>,AV<VIEW,double,1>,AV<OWN,double,3>>) \
 E("mat4x4<float>(o3,z4,z3,z1,s,q3,z2)",mat<float,4,4,AV<OVIEW,float,3>,AV<SWZ,float,4>,AV<SWZ,float,3>,AV<SWZ,float,1>,AS<float>,AV<VSWZ,float,3>,AV<SWZ,float,2>>) \
 E("mat4x4<double>(w4_double,q2_double,w4_double,z3_double,z4_double)",mat<double,4,4,AV<VIEW,double,4>,AV<VSWZ,double,2>,AV<VIEW,double,4>,AV<SWZ,double,3>,AV<SWZ,double,4>>) \
 E("mat4x4<float>(w2,w1,q3_double,z4_double,z2_double,z1_int,s_int,z4)",mat<float,4,4,AV<VIEW,float,2>,AV<VIEW,float,1>,AV<VSWZ,double,3>,AV<SWZ,double,4>,AV<SWZ,double,2>,AV<SWZ,int,1>,AS<int>,AV<SWZ,float,4>>) \
 E("mat4x4<double>(q3,w2_int,w4_double,z1_double,v3_int,w2,z4_int)",mat<double,4,4,AV<VSWZ,float,3>,AV<VIEW,int,2>,AV<VIEW,double,4>,AV<SWZ,double,1>,AV<OWN,int,3>,AV<VIEW,float,2>,AV<SWZ,int,4>>) \
 E("mat4x4<float>(z3_int,w1,v3_double,z3,v4_int,o3)",mat<float,4,4,AV<SWZ,int,3>,AV<VIEW,float,1>,AV<OWN,double,3>,AV<SWZ,float,3>,AV<OWN,int,4>,AV<OVIEW,float,3>>)
#define CT8_3 \
 E("mat2x2<double>(v1_double,z1_double,w1_double,z1_double)",mat<double,2,2,AV<OWN,double,1>,AV<SWZ,double,1>,AV<VIEW,double,1>,AV<SWZ,double,1>>) \
 E("mat2x2<float>(v2,z4)",mat<float,2,2,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("mat2x2<double>(z3_double,q2_double)",mat<double,2,2,AV<SWZ,double,3>,AV<VSWZ,double,2>>) \
 E("mat2x2<float>(v2,w1,z3)",mat<float,2,2,AV<OWN,float,2>,AV<VIEW,float,1>,AV<SWZ,float,3>>) \
 E("mat2x2<double>(q3_double,v1_double)",mat<double,2,2,AV<VSWZ,double,3>,AV<OWN,double,1>>) \
 E("mat2x2<float>(s_int,v3_double)",mat<float,2,2,AS<int>,AV<OWN,double,3>>) \
 E("mat2x2<double>(v2,v4_double)",mat<double,2,2,AV<OWN,float,2>,AV<OWN,double,4>>) \
 E("mat2x3<double>(s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,2,3,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat2x3<double>(q3_double,z3_double)",mat<double,2,3,AV<VSWZ,double,3>,AV<SWZ,double,3>>) \
 E("mat2x3<float>(s,o3,q3)",mat<float,2,3,AS<float>,AV<OVIEW,float,3>,AV<VSWZ,float,3>>) \
 E("mat2x3<double>(w1_double,w1_double,o3_double,p4_double)",mat<double,2,3,AV<VIEW,double,1>,AV<VIEW,double,1>,AV<OVIEW,double,3>,AV<OVSWZ,double,4>>) \
 E("mat2x3<float>(v3_double,q3_int)",mat<float,2,3,AV<OWN,double,3>,AV<VSWZ,int,3>>) \
 E("mat2x3<double>(z1_int,w2,p4_double)",mat<double,2,3,AV<SWZ,int,1>,AV<VIEW,float,2>,AV<OVSWZ,double,4>>) \
 E("mat2x3<float>(v1_int,v4_double,z4_int)",mat<float,2,3,AV<OWN,int,1>,AV<OWN,double,4>,AV<SWZ,int,4>>) \
 E("mat2x4<float>(w1,s,z1,v1,w1,s,s,z1)",mat<float,2,4,AV<VIEW,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<VIEW,float,1>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("mat2x4<double>(v4_double,v4_double)",mat<double,2,4,AV<OWN,double,4>,AV<OWN,double,4>>) \
 E("mat2x4<double>(z1_double,v1_double,z1_double,w2_double,w1_double,z3_double)",mat<double,2,4,AV<SWZ,double,1>,AV<OWN,double,1>,AV<SWZ,double,1>,AV<VIEW,double,2>,AV<VIEW,double,1>,AV<SWZ,double,3>>) \
 E("mat2x4<float>(v2,w2,v4)",mat<float,2,4,AV<OWN,float,2>,AV<VIEW,float,2>,AV<OWN,float,4>>) \
 E("mat2x4<double>(z1,w2,q3,z2)",mat<double,2,4,AV<SWZ,float,1>,AV<VIEW,float,2>,AV<VSWZ,float,3>,AV<SWZ,float,2>>) \
 E("mat2x4<float>(w1,q3_double,q2_double,w2)",mat<float,2,4,AV<VIEW,float,1>,AV<VSWZ,double,3>,AV<VSWZ,double,2>,AV<VIEW,float,2>>) \
 E("mat2x4<double>(z3,v3_int,o3)",mat<double,2,4,AV<SWZ,float,3>,AV<OWN,int,3>,AV<OVIEW,float,3>>) \
 E("mat3x2<float>(s,s,s,s,s,s)",mat<float,3,2,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat3x2<float>(v2,q2,w2)",mat<float,3,2,AV<OWN,float,2>,AV<VSWZ,float,2>,AV<VIEW,float,2>>) \
 E("mat3x2<float>(q2,p4)",mat<float,3,2,AV<VSWZ,float,2>,AV<OVSWZ,float,4>>) \
 E("mat3x2<double>(z2_double,w2_double,v4_double)",mat<double,3,2,AV<SWZ,double,2>,AV<VIEW,double,2>,AV<OWN,double,4>>) \
 E("mat3x2<float>(q3,v3)",mat<float,3,2,AV<VSWZ,float,3>,AV<OWN,float,3>>) \
 E("mat3x2<double>(p4_int,w1,v1_int)",mat<double,3,2,AV<OVSWZ,int,4>,AV<VIEW,float,1>,AV<OWN,int,1>>) \
 E("mat3x2<float>(v4,p4_double)",mat<float,3,2,AV<OWN,float,4>,AV<OVSWZ,double,4>>) \
 E("mat3x2<double>(o3,w4)",mat<double,3,2,AV<OVIEW,float,3>,AV<VIEW,float,4>>) \
 E("mat3x3<float>(v3,v3,v3)",mat<float,3,3,AV<OWN,float,3>,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("mat3x3<double>(q2_double,w4_double,q2_double,w2_double)",mat<double,3,3,AV<VSWZ,double,2>,AV<VIEW,double,4>,AV<VSWZ,double,2>,AV<VIEW,double,2>>) \
 E("mat3x3<float>(w2,v3,o3,v1)",mat<float,3,3,AV<VIEW,float,2>,AV<OWN,float,3>,AV<OVIEW,float,3>,AV<OWN,float,1>>) \
 E("mat3x3<double>(q3_double,w1_double,z1_double,v2_double,v2_double)",mat<double,3,3,AV<VSWZ,double,3>,AV<VIEW,double,1>,AV<SWZ,double,1>,AV<OWN,double,2>,AV<OWN,double,2>>) \
 E("mat3x3<float>(o3_double,z4_int,p4)",mat<float,3,3,AV<OVIEW,double,3>,AV<SWZ,int,4>,AV<OVSWZ,float,4>>) \
 E("mat3x3<double>(v3_double,q3_double,o3_int)",mat<double,3,3,AV<OWN,double,3>,AV<VSWZ,double,3>,AV<OVIEW,int,3>>) \
 E("mat3x3<float>(w1_double,v3,v4_double,p4_int)",mat<float,3,3,AV<VIEW,double,1>,AV<OWN,float,3>,AV<OWN,double,4>,AV<OVSWZ,int,4>>) \
 E("mat3x4<double>(z1_double,s_double,z1_double,w1_double,s_double,w1_double,v1_double,s_double,v1_double,z1_double,w1_double,s_double)",mat<double,3,4,AV<SWZ,double,1>,AS<double>,AV<SWZ,double,1>,AV<VIEW,double,1>,AS<double>,AV<VIEW,double,1>,AV<OWN,double,1>,AS<double>,AV<OWN,double,1>,AV<SWZ,double,1>,AV<VIEW,double,1>,AS<double>>) \
 E("mat3x4<float>(z3,z4,z3,z2)",mat<float,3,4,AV<SWZ,float,3>,AV<SWZ,float,4>,AV<SWZ,float,3>,AV<SWZ,float,2>>) \
 E("mat3x4<double>(w2_double,s_double,w2_double,v1_double,q2_double,z2_double,o3_double)",mat<double,3,4,AV<VIEW,double,2>,AS<double>,AV<VIEW,double,2>,AV<OWN,double,1>,AV<VSWZ,double,2>,AV<SWZ,double,2>,AV<OVIEW,double,3>>) \
 E("mat3x4<float>(w4,p4,v1,w4)",mat<float,3,4,AV<VIEW,float,4>,AV<OVSWZ,float,4>,AV<OWN,float,1>,AV<VIEW,float,4>>) \
 E("mat3x4<double>(o3,z2_int,v4,v2,v4)",mat<double,3,4,AV<OVIEW,float,3>,AV<SWZ,int,2>,AV<OWN,float,4>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("mat3x4<float>(q3_double,z4,v3,w4)",mat<float,3,4,AV<VSWZ,double,3>,AV<SWZ,float,4>,AV<OWN,float,3>,AV<VIEW,float,4>>) \
 E("mat3x4<double>(o3,w4,w1,s_double,w1_int,w2)",mat<double,3,4,AV<OVIEW,float,3>,AV<VIEW,float,4>,AV<VIEW,float,1>,AS<double>,AV<VIEW,int,1>,AV<VIEW,float,2>>) \
 E("mat4x2<double>(s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,4,2,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat4x2<double>(z2_double,v2_double,q2_double,z2_double)",mat<double,4,2,AV<SWZ,double,2>,AV<OWN,double,2>,AV<VSWZ,double,2>,AV<SWZ,double,2>>) \
 E("mat4x2<float>(v2,v3,z1,s,z2)",mat<float,4,2,AV<OWN,float,2>,AV<OWN,float,3>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("mat4x2<double>(o3_double,z4_double,v1_double)",mat<double,4,2,AV<OVIEW,double,3>,AV<SWZ,double,4>,AV<OWN,double,1>>) \
 E("mat4x2<float>(z4_int,q2,q2)",mat<float,4,2,AV<SWZ,int,4>,AV<VSWZ,float,2>,AV<VSWZ,float,2>>) \
 E("mat4x2<double>(s_int,w2,q2,q2_double,z4_double)",mat<double,4,2,AS<int>,AV<VIEW,float,2>,AV<VSWZ,float,2>,AV<VSWZ,double,2>,AV<SWZ,double,4>>) \
 E("mat4x2<float>(z4_int,w1_double,v2_double,s)",mat<float,4,2,AV<SWZ,int,4>,AV<VIEW,double,1>,AV<OWN,double,2>,AS<float>>) \
 E("mat4x3<float>(z1,w1,s,v1,v1,s,v1,s,s,s,v1,z1)",mat<float,4,3,AV<SWZ,float,1>,AV<VIEW,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AS<float>,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("mat4x3<double>(v3_double,v3_double,v3_double,v3_double)",mat<double,4,3,AV<OWN,double,3>,AV<OWN,double,3>,AV<OWN,double,3>,AV<OWN,double,3>>) \
 E("mat4x3<double>(z1_double,q3_double,z3_double,z3_double,o3_double)",mat<double,4,3,AV<SWZ,double,1>,AV<VSWZ,double,3>,AV<SWZ,double,3>,AV<SWZ,double,3>,AV<OVIEW,double,3>>) \
 E("mat4x3<float>(v3,v1,v4,q3,z1)",mat<float,4,3,AV<OWN,float,3>,AV<OWN,float,1>,AV<OWN,float,4>,AV<VSWZ,float,3>,AV<SWZ,float,1>>) \
 E("mat4x3<double>(v2,w4,z1,w4_double,v4_double)",mat<double,4,3,AV<OWN,float,2>,AV<VIEW,float,4>,AV<SWZ,float,1>,AV<VIEW,double,4>,AV<OWN,double,4>>) \
 E("mat4x3<float>(p4_int,w4_int,z3,z3_double)",mat<float,4,3,AV<OVSWZ,int,4>,AV<VIEW,int,4>,AV<SWZ,float,3>,AV<SWZ,double,3>>) \
 E("mat4x3<double>(w1,z2_double,w4,z2,w4_double)",mat<double,4,3,AV<VIEW,float,1>,AV<SWZ,double,2>,AV<VIEW,float,4>,AV<SWZ,float,2>,AV<VIEW,double,4>>) \
 E("mat4x4<float>(s,s,s,s,s,s,s,s,s,s,s,s,s,s,s,s)",mat<float,4,4,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat4x4<float>(v4,w4,w4,p4)",mat<float,4,4,AV<OWN,float,4>,AV<VIEW,float,4>,AV<VIEW,float,4>,AV<OVSWZ,float,4>>) \
 E("mat4x4<float>(z1,o3,w4,w2,z1,z3,p4)",mat<float,4,4,AV<SWZ,float,1>,AV<OVIEW,float,3>,AV<VIEW,float,4>,AV<VIEW,float,2>,AV<SWZ,float,1>,AV<SWZ,float,3>,AV<OVSWZ,float,4>>) \
 E("mat4x4<double>(o3_double,w4_double,v3_double,s_double,s_double,o3_double,v2_double)",mat<double,4,4,AV<OVIEW,double,3>,AV<VIEW,double,4>,AV<OWN,double,3>,AS<double>,AS<double>,AV<OVIEW,double,3>,AV<OWN,double,2>>) \
 E("mat4x4<float>(v3,q3_int,w1,w1,w1,w1_int,v3_double,z3)",mat<float,4,4,AV<OWN,float,3>,AV<VSWZ,int,3>,AV<VIEW,float,1>,AV<VIEW,float,1>,AV<VIEW,float,1>,AV<VIEW,int,1>,AV<OWN,double,3>,AV<SWZ,float,3>>) \
 E("mat4x4<double>(q2_int,s,q3,v4,v2_int,s_double,v1_int,p4_double)",mat<double,4,4,AV<VSWZ,int,2>,AS<float>,AV<VSWZ,float,3>,AV<OWN,float,4>,AV<OWN,int,2>,AS<double>,AV<OWN,int,1>,AV<OVSWZ,double,4>>) \
 E("mat4x4<float>(w2_double,z2_int,s_int,w1_int,w2,v4_int,z4_double)",mat<float,4,4,AV<VIEW,double,2>,AV<SWZ,int,2>,AS<int>,AV<VIEW,int,1>,AV<VIEW,float,2>,AV<OWN,int,4>,AV<SWZ,double,4>>) \
 E("mat4x4<double>(z3_double,z1,q3_int,v3,z4,z3)",mat<double,4,4,AV<SWZ,double,3>,AV<SWZ,float,1>,AV<VSWZ,int,3>,AV<OWN,float,3>,AV<SWZ,float,4>,AV<SWZ,float,3>>)
#define CT8_4 \
 E("mat2x2<float>(v2,v2)",mat<float,2,2,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("mat2x2<double>(w2_double,z4_double)",mat<double,2,2,AV<VIEW,double,2>,AV<SWZ,double,4>>) \
 E("mat2x2<float>(w1,z1,z4)",mat<float,2,2,AV<VIEW,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("mat2x2<double>(q2_double,s_double,o3_double)",mat<double,2,2,AV<VSWZ,double,2>,AS<double>,AV<OVIEW,double,3>>) \
 E("mat2x2<float>(z3_double,z1_int)",mat<float,2,2,AV<SWZ,double,3>,AV<SWZ,int,1>>) \
 E("mat2x2<double>(v1_int,q3_double)",mat<double,2,2,AV<OWN,int,1>,AV<VSWZ,double,3>>) \
 E("mat2x2<float>(o3,q2)",mat<float,2,2,AV<OVIEW,float,3>,AV<VSWZ,float,2>>) \
 E("mat2x3<double>(v1_double,v1_double,v1_double,w1_double,w1_double,s_double)",mat<double,2,3,AV<OWN,double,1>,AV<OWN,double,1>,AV<OWN,double,1>,AV<VIEW,double,1>,AV<VIEW,double,1>,AS<double>>) \
 E("mat2x3<float>(z2,z4)",mat<float,2,3,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("mat2x3<double>(s_double,q3_double,o3_double)",mat<double,2,3,AS<double>,AV<VSWZ,double,3>,AV<OVIEW,double,3>>) \
 E("mat2x3<float>(q2,q3,z4)",mat<float,2,3,AV<VSWZ,float,2>,AV<VSWZ,float,3>,AV<SWZ,float,4>>) \
 E("mat2x3<double>(q3,z3)",mat<double,2,3,AV<VSWZ,float,3>,AV<SWZ,float,3>>) \
 E("mat2x3<float>(o3_int,v3_double)",mat<float,2,3,AV<OVIEW,int,3>,AV<OWN,double,3>>) \
 E("mat2x3<double>(s,p4,p4_double)",mat<double,2,3,AS<float>,AV<OVSWZ,float,4>,AV<OVSWZ,double,4>>) \
 E("mat2x4<double>(s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,2,4,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat2x4<double>(p4_double,p4_double)",mat<double,2,4,AV<OVSWZ,double,4>,AV<OVSWZ,double,4>>) \
 E("mat2x4<float>(v1,v4,w1,z4)",mat<float,2,4,AV<OWN,float,1>,AV<OWN,float,4>,AV<VIEW,float,1>,AV<SWZ,float,4>>) \
 E("mat2x4<double>(w2_double,v2_double,z4_double)",mat<double,2,4,AV<VIEW,double,2>,AV<OWN,double,2>,AV<SWZ,double,4>>) \
 E("mat2x4<float>(w2,w2_int,z2,w4_int)",mat<float,2,4,AV<VIEW,float,2>,AV<VIEW,int,2>,AV<SWZ,float,2>,AV<VIEW,int,4>>) \
 E("mat2x4<double>(s,v3_double,w2,z2_int)",mat<double,2,4,AS<float>,AV<OWN,double,3>,AV<VIEW,float,2>,AV<SWZ,int,2>>) \
 E("mat2x4<float>(q2,z1,p4,z3)",mat<float,2,4,AV<VSWZ,float,2>,AV<SWZ,float,1>,AV<OVSWZ,float,4>,AV<SWZ,float,3>>) \
 E("mat3x2<float>(w1,z1,z1,v1,s,s)",mat<float,3,2,AV<VIEW,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("mat3x2<double>(v2_double,v2_double,v2_double)",mat<double,3,2,AV<OWN,double,2>,AV<OWN,double,2>,AV<OWN,double,2>>) \
 E("mat3x2<double>(z2_double,p4_double)",mat<double,3,2,AV<SWZ,double,2>,AV<OVSWZ,double,4>>) \
 E("mat3x2<float>(z2,v2,z3)",mat<float,3,2,AV<SWZ,float,2>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("mat3x2<double>(z3,z3_double)",mat<double,3,2,AV<SWZ,float,3>,AV<SWZ,double,3>>) \
 E("mat3x2<float>(v4_double,q2)",mat<float,3,2,AV<OWN,double,4>,AV<VSWZ,float,2>>) \
 E("mat3x2<double>(z4,w4_int)",mat<double,3,2,AV<SWZ,float,4>,AV<VIEW,int,4>>) \
 E("mat3x3<float>(s,s,s,s,s,s,s,s,s)",mat<float,3,3,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("mat3x3<float>(q3,v3,v3)",mat<float,3,3,AV<VSWZ,float,3>,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("mat3x3<float>(o3,z2,z1,v1,v4)",mat<float,3,3,AV<OVIEW,float,3>,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("mat3x3<double>(q2_double,o3_double,o3_double,w1_double)",mat<double,3,3,AV<VSWZ,double,2>,AV<OVIEW,double,3>,AV<OVIEW,double,3>,AV<VIEW,double,1>>) \
 E("mat3x3<float>(p4_double,o3,q2)",mat<float,3,3,AV<OVSWZ,double,4>,AV<OVIEW,float,3>,AV<VSWZ,float,2>>) \
 E("mat3x3<double>(z3,z4,z4)",mat<double,3,3,AV<SWZ,float,3>,AV<SWZ,float,4>,AV<SWZ,float,4>>) \
 E("mat3x3<float>(z3,q2,z3,v3)",mat<float,3,3,AV<SWZ,float,3>,AV<VSWZ,float,2>,AV<SWZ,float,3>,AV<OWN,float,3>>) \
 E("mat3x3<double>(w1,z3,v4_int,v4)",mat<double,3,3,AV<VIEW,float,1>,AV<SWZ,float,3>,AV<OWN,int,4>,AV<OWN,float,4>>) \
 E("mat3x4<float>(v4,v4,v4)",mat<float,3,4,AV<OWN,float,4>,AV<OWN,float,4>,AV<OWN,float,4>>) \
 E("mat3x4<double>(z3_double,w4_double,q3_double,v2_double)",mat<double,3,4,AV<SWZ,double,3>,AV<VIEW,double,4>,AV<VSWZ,double,3>,AV<OWN,double,2>>) \
 E("mat3x4<float>(v4,v3,z1,v4)",mat<float,3,4,AV<OWN,float,4>,AV<OWN,float,3>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("mat3x4<double>(w4_double,z4_double,z1_double,v4_double)",mat<double,3,4,AV<VIEW,double,4>,AV<SWZ,double,4>,AV<SWZ,double,1>,AV<OWN,double,4>>) \
 E("mat3x4<float>(z1,v3_double,q2,v4,w1,w2)",mat<float,3,4,AV<SWZ,float,1>,AV<OWN,double,3>,AV<VSWZ,float,2>,AV<OWN,float,4>,AV<VIEW,float,1>,AV<VIEW,float,2>>) \
 E("mat3x4<double>(q3_double,p4_int,z3_int,z4_int)",mat<double,3,4,AV<VSWZ,double,3>,AV<OVSWZ,int,4>,AV<SWZ,int,3>,AV<SWZ,int,4>>) \
 E("mat3x4<float>(z1_double,z3_double,s,v4,s_double,v4)",mat<float,3,4,AV<SWZ,double,1>,AV<SWZ,double,3>,AS<float>,AV<OWN,float,4>,AS<double>,AV<OWN,float,4>>) \
 E("mat4x2<double>(w1_double,s_double,z1_double,z1_double,z1_double,z1_double,z1_double,v1_double)",mat<double,4,2,AV<VIEW,double,1>,AS<double>,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<SWZ,double,1>,AV<OWN,double,1>>) \
 E("mat4x2<float>(o3,z4,w2)",mat<float,4,2,AV<OVIEW,float,3>,AV<SWZ,float,4>,AV<VIEW,float,2>>) \
 E("mat4x2<double>(w2_double,z3_double,w1_double,z1_double,q2_double)",mat<double,4,2,AV<VIEW,double,2>,AV<SWZ,double,3>,AV<VIEW,double,1>,AV<SWZ,double,1>,AV<VSWZ,double,2>>) \
 E("mat4x2<float>(v2,q2,p4)",mat<float,4,2,AV<OWN,float,2>,AV<VSWZ,float,2>,AV<OVSWZ,float,4>>) \
 E("mat4x2<double>(w4,z2_double,q2)",mat<double,4,2,AV<VIEW,float,4>,AV<SWZ,double,2>,AV<VSWZ,float,2>>) \
 E("mat4x2<float>(z4_double,w4_int)",mat<float,4,2,AV<SWZ,double,4>,AV<VIEW,int,4>>) \
 E("mat4x2<double>(p4_double,s,w2,z1)",mat<double,4,2,AV<OVSWZ,double,4>,AS<float>,AV<VIEW,float,2>,AV<SWZ,float,1>>) \
 E("mat4x3<double>(s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double,s_double)",mat<double,4,3,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>,AS<double>>) \
 E("mat4x3<double>(q3_double,z3_double,q3_double,z3_double)",mat<double,4,3,AV<VSWZ,double,3>,AV<SWZ,double,3>,AV<VSWZ,double,3>,AV<SWZ,double,3>>) \
 E("mat4x3<float>(w1,w1,q3,z4,w2,v3)",mat<float,4,3,AV<VIEW,float,1>,AV<VIEW,float,1>,AV<VSWZ,float,3>,AV<SWZ,float,4>,AV<VIEW,float,2>,AV<OWN,float,3>>) \
 E("mat4x3<double>(z3_double,w1_double,v4_double,q3_double,s_double)",mat<double,4,3,AV<SWZ,double,3>,AV<VIEW,double,1>,AV<OWN,double,4>,AV<VSWZ,double,3>,AS<double>>) \
 E("mat4x3<float>(w4_int,q3,v2_int,w1_double,z4)",mat<float,4,3,AV<VIEW,int,4>,AV<VSWZ,float,3>,AV<OWN,int,2>,AV<VIEW,double,1>,AV<SWZ,float,4>>) \
 E("mat4x3<double>(z4_int,z4_double,z3,o3)",mat<double,4,3,AV<SWZ,int,4>,AV<SWZ,double,4>,AV<SWZ,float,3>,AV<OVIEW,float,3>>) \
 E("mat4x3<float>(s,o3_double,v1_int,w1_int,z2_double,z1_double,v4)",mat<float,4,3,AS<float>,AV<OVIEW,double,3>,AV<OWN,int,1>,AV<VIEW,int,1>,AV<SWZ,double,2>,AV<SWZ,double,1>,AV<OWN,float,4>>) \
 E("mat4x4<float>(v1,z1,w1,w1,z1,w1,z1,z1,z1,w1,s,w1,z1,z1,v1,s)",mat<float,4,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<VIEW,float,1>,AV<VIEW,float,1>,AV<SWZ,float,1>,AV<VIEW,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<VIEW,float,1>,AS<float>,AV<VIEW,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("mat4x4<double>(v4_double,v4_double,v4_double,v4_double)",mat<double,4,4,AV<OWN,double,4>,AV<OWN,double,4>,AV<OWN,double,4>,AV<OWN,double,4>>) \
 E("mat4x4<double>(w1_double,z3_double,v4_double,q2_double,w1_double,q3_double,z4_double)",mat<double,4,4,AV<VIEW,double,1>,AV<SWZ,double,3>,AV<OWN,double,4>,AV<VSWZ,double,2>,AV<VIEW,double,1>,AV<VSWZ,double,3>,AV<SWZ,double,4>>) \
 E("mat4x4<float>(z3,w4,z4,p4,z1)",mat<float,4,4,AV<SWZ,float,3>,AV<VIEW,float,4>,AV<SWZ,float,4>,AV<OVSWZ,float,4>,AV<SWZ,float,1>>) \
 E("mat4x4<double>(o3_double,z3,v1,v1_double,s_int,w1_int,v3,v3)",mat<double,4,4,AV<OVIEW,double,3>,AV<SWZ,float,3>,AV<OWN,float,1>,AV<OWN,double,1>,AS<int>,AV<VIEW,int,1>,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("mat4x4<float>(v2_double,v3,q2_double,v2,w2,z1,p4_int)",mat<float,4,4,AV<OWN,double,2>,AV<OWN,float,3>,AV<VSWZ,double,2>,AV<OWN,float,2>,AV<VIEW,float,2>,AV<SWZ,float,1>,AV<OVSWZ,int,4>>) \
 E("mat4x4<double>(v2_int,z2_int,w1_double,z1_int,z2,p4,z4_int)",mat<double,4,4,AV<OWN,int,2>,AV<SWZ,int,2>,AV<VIEW,double,1>,AV<SWZ,int,1>,AV<SWZ,float,2>,AV<OVSWZ,float,4>,AV<SWZ,int,4>>)
