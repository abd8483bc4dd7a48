// generated by tools/gen_ctor.py
#define CT7_0 \
 E("vec2<float>(s,s)",vec<float,2,AS<float>,AS<float>>) \
 E("vec2<float>(z1,s)",vec<float,2,AV<SWZ,float,1>,AS<float>>) \
 E("vec2<float>(v1,z2)",vec<float,2,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec2<float>(v1,z3)",vec<float,2,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec2<float>(v1,z4)",vec<float,2,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec2<float>(z3)",vec<float,2,AV<SWZ,float,3>>) \
 E("vec3<float>(s,v1,s)",vec<float,3,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("vec3<float>(v1,s,s)",vec<float,3,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("vec3<float>(v1,z1,s)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec3<float>(z1,v1,s)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec3<float>(s,s,v2)",vec<float,3,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("vec3<float>(v1,s,v2)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec3<float>(z1,s,v2)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec3<float>(s,s,v3)",vec<float,3,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("vec3<float>(v1,s,v3)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec3<float>(z1,s,v3)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec3<float>(s,s,v4)",vec<float,3,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("vec3<float>(v1,s,v4)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec3<float>(z1,s,v4)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec3<float>(s,v2)",vec<float,3,AS<float>,AV<OWN,float,2>>) \
 E("vec3<float>(s,v3)",vec<float,3,AS<float>,AV<OWN,float,3>>) \
 E("vec3<float>(s,v4)",vec<float,3,AS<float>,AV<OWN,float,4>>) \
 E("vec3<float>(v2,s)",vec<float,3,AV<OWN,float,2>,AS<float>>) \
 E("vec3<float>(v2,v2)",vec<float,3,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("vec3<float>(z2,v3)",vec<float,3,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("vec3<float>(v3)",vec<float,3,AV<OWN,float,3>>) \
 E("vec4<float>(s,s,s,z1)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,s,z1,z1)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,v1,v1,z1)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,z1,s,z1)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,z1,z1,z1)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,s,v1,z1)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,v1,s,z1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,v1,z1,z1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,z1,v1,z1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,s,s,z1)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,s,z1,z1)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,v1,v1,z1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,z1,s,z1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,z1,z1,z1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,s,z1,z2)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,v1,z1,z2)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,z1,z1,z2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,s,z1,z2)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,v1,z1,z2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,z1,z1,z2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,s,z1,z2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,v1,z1,z2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,z1,z1,z2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,s,z1,z3)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,v1,z1,z3)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,z1,z1,z3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,s,z1,z3)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,v1,z1,z3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,z1,z1,z3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,s,z1,z3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,v1,z1,z3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,z1,z1,z3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,s,z1,z4)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,v1,z1,z4)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z1,z1,z4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,s,z1,z4)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,v1,z1,z4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,z1,z1,z4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,s,z1,z4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,v1,z1,z4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,z1,z1,z4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z1,z2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,z1,z2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,z1,z2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,z1,z3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,z1,z3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,z1,z3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,z1,z4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,z1,z4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,z1,z4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z2,z1)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,z2,z1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,z2,z1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,v2,z2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,z2,z2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,v2,z3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,z2,z3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,v2,z4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,z2,z4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,z3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,z4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v2,v1,z1)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z2,s,z1)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(z2,z1,z1)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v2,z1,z2)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z2,z1,z2)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v2,z1,z3)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z2,z1,z3)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v2,z1,z4)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z2,z1,z4)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v2,z3)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(z2,z4)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(z3,z1)",vec<float,4,AV<SWZ,float,3>,AV<SWZ,float,1>>) \
 E("vec4<float>(v3,z3)",vec<float,4,AV<OWN,float,3>,AV<SWZ,float,3>>) \
 E("vec4<float>(z3,z4)",vec<float,4,AV<SWZ,float,3>,AV<SWZ,float,4>>) \
 E("ovec2<float>(v1,s)",ovec<float,2,AV<OWN,float,1>,AS<float>>) \
 E("ovec2<float>(s,v2)",ovec<float,2,AS<float>,AV<OWN,float,2>>) \
 E("ovec2<float>(s,v3)",ovec<float,2,AS<float>,AV<OWN,float,3>>) \
 E("ovec2<float>(s,v4)",ovec<float,2,AS<float>,AV<OWN,float,4>>) \
 E("ovec2<float>(v2)",ovec<float,2,AV<OWN,float,2>>) \
 E("ovec3<float>(s,s,s)",ovec<float,3,AS<float>,AS<float>,AS<float>>) \
 E("ovec3<float>(s,z1,s)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec3<float>(v1,v1,s)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec3<float>(z1,s,s)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("ovec3<float>(z1,z1,s)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec3<float>(s,v1,z2)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(v1,v1,z2)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(z1,v1,z2)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(s,v1,z3)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(v1,v1,z3)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(z1,v1,z3)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(s,v1,z4)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(v1,v1,z4)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z1,v1,z4)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(v1,z2)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(v1,z3)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(v1,z4)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z2,s)",ovec<float,3,AV<SWZ,float,2>,AS<float>>) \
 E("ovec3<float>(z2,z2)",ovec<float,3,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("ovec3<float>(v2,z4)",ovec<float,3,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z4)",ovec<float,3,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,s,v1,z1)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,v1,s,z1)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,v1,z1,z1)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,z1,v1,z1)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,s,s,z1)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,s,z1,z1)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,v1,v1,z1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,z1,s,z1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,z1,z1,z1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,s,v1,z1)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,v1,s,z1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,v1,z1,z1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,z1,v1,z1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,s,v1,v2)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,v1,v1,v2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,z1,v1,v2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,s,v1,v2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,v1,v1,v2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,z1,v1,v2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,s,v1,v2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,v1,v1,v2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,z1,v1,v2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,s,v1,v3)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,v1,v1,v3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,z1,v1,v3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,s,v1,v3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,v1,v1,v3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,z1,v1,v3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,s,v1,v3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,v1,v1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,z1,v1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,s,v1,v4)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v1,v1,v4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,z1,v1,v4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,s,v1,v4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,v1,v1,v4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,z1,v1,v4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,s,v1,v4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,v1,v1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,z1,v1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v1,v2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,v1,v2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,v1,v2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,v1,v3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,v1,v3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,v1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,v1,v4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,v1,v4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,v1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v2,z1)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,v2,z1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,v2,z1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,z2,v2)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,v2,v2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,z2,v3)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,v2,v3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,z2,v4)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,v2,v4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,v3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,v4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v2,s,z1)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v2,z1,z1)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z2,v1,z1)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v2,v1,v2)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z2,v1,v2)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v2,v1,v3)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z2,v1,v3)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v2,v1,v4)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z2,v1,v4)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z2,v2)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(v2,v4)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(v3,z1)",ovec<float,4,AV<OWN,float,3>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z3,v2)",ovec<float,4,AV<SWZ,float,3>,AV<OWN,float,2>>) \
 E("ovec4<float>(v3,v4)",ovec<float,4,AV<OWN,float,3>,AV<OWN,float,4>>) \
 E("vec2<int>(v1_double,z1_int)",vec<int,2,AV<OWN,double,1>,AV<SWZ,int,1>>) \
 E("vec2<int>(z1_unsigned,z4_unsigned)",vec<int,2,AV<SWZ,unsigned,1>,AV<SWZ,unsigned,4>>) \
 E("vec2<float>(z4_int)",vec<float,2,AV<SWZ,int,4>>) \
 E("vec3<unsigned>(z1_int,z1_bool,z3_unsigned)",vec<unsigned,3,AV<SWZ,int,1>,AV<SWZ,bool,1>,AV<SWZ,unsigned,3>>) \
 E("vec3<long long>(z1_bool,z3_double)",vec<long long,3,AV<SWZ,bool,1>,AV<SWZ,double,3>>) \
 E("vec3<long long>(v2_double,v2_ll)",vec<long long,3,AV<OWN,double,2>,AV<OWN,long long,2>>) \
 E("vec3<int>(v3_int)",vec<int,3,AV<OWN,int,3>>) \
 E("vec4<float>(s_int,z1,z1_double,v2_double)",vec<float,4,AS<int>,AV<SWZ,float,1>,AV<SWZ,double,1>,AV<OWN,double,2>>) \
 E("vec4<double>(z1_double,v1_int,v2_double)",vec<double,4,AV<SWZ,double,1>,AV<OWN,int,1>,AV<OWN,double,2>>) \
 E("vec4<int>(z1_int,v2_unsigned,s_double)",vec<int,4,AV<SWZ,int,1>,AV<OWN,unsigned,2>,AS<double>>) \
 E("vec4<unsigned>(v1_bool,v2,z4_unsigned)",vec<unsigned,4,AV<OWN,bool,1>,AV<OWN,float,2>,AV<SWZ,unsigned,4>>) \
 E("vec4<long long>(v2_ll,z1_ll,v1_ll)",vec<long long,4,AV<OWN,long long,2>,AV<SWZ,long long,1>,AV<OWN,long long,1>>) \
 E("vec4<unsigned>(v2,s_double,z4_double)",vec<unsigned,4,AV<OWN,float,2>,AS<double>,AV<SWZ,double,4>>) \
 E("vec4<unsigned>(v2_double,v4_ll)",vec<unsigned,4,AV<OWN,double,2>,AV<OWN,long long,4>>) \
 E("vec4<double>(z3_bool,v3_bool)",vec<double,4,AV<SWZ,bool,3>,AV<OWN,bool,3>>) \
 E("ovec2<int>(v1_double,z1_int)",ovec<int,2,AV<OWN,double,1>,AV<SWZ,int,1>>) \
 E("ovec2<int>(z1_unsigned,z4_unsigned)",ovec<int,2,AV<SWZ,unsigned,1>,AV<SWZ,unsigned,4>>) \
 E("ovec2<float>(z4_int)",ovec<float,2,AV<SWZ,int,4>>) \
 E("ovec3<unsigned>(z1_int,z1_bool,z3_unsigned)",ovec<unsigned,3,AV<SWZ,int,1>,AV<SWZ,bool,1>,AV<SWZ,unsigned,3>>) \
 E("ovec3<long long>(z1_bool,z3_double)",ovec<long long,3,AV<SWZ,bool,1>,AV<SWZ,double,3>>) \
 E("ovec3<long long>(v2_double,v2_ll)",ovec<long long,3,AV<OWN,double,2>,AV<OWN,long long,2>>) \
 E("ovec3<int>(v3_int)",ovec<int,3,AV<OWN,int,3>>) \
 E("ovec4<float>(s_int,z1,z1_double,v2_double)",ovec<float,4,AS<int>,AV<SWZ,float,1>,AV<SWZ,double,1>,AV<OWN,double,2>>) \
 E("ovec4<double>(z1_double,v1_int,v2_double)",ovec<double,4,AV<SWZ,double,1>,AV<OWN,int,1>,AV<OWN,double,2>>) \
 E("ovec4<int>(z1_int,v2_unsigned,s_double)",ovec<int,4,AV<SWZ,int,1>,AV<OWN,unsigned,2>,AS<double>>) \
 E("ovec4<unsigned>(v1_bool,v2,z4_unsigned)",ovec<unsigned,4,AV<OWN,bool,1>,AV<OWN,float,2>,AV<SWZ,unsigned,4>>) \
 E("ovec4<long long>(v2_ll,z1_ll,v1_ll)",ovec<long long,4,AV<OWN,long long,2>,AV<SWZ,long long,1>,AV<OWN,long long,1>>) \
 E("ovec4<unsigned>(v2,s_double,z4_double)",ovec<unsigned,4,AV<OWN,float,2>,AS<double>,AV<SWZ,double,4>>) \
 E("ovec4<unsigned>(v2_double,v4_ll)",ovec<unsigned,4,AV<OWN,double,2>,AV<OWN,long long,4>>) \
 E("ovec4<double>(z3_bool,v3_bool)",ovec<double,4,AV<SWZ,bool,3>,AV<OWN,bool,3>>)
#define CT7_1 \
 E("vec2<float>(s,v1)",vec<float,2,AS<float>,AV<OWN,float,1>>) \
 E("vec2<float>(z1,v1)",vec<float,2,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec2<float>(z1,v2)",vec<float,2,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec2<float>(z1,v3)",vec<float,2,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec2<float>(z1,v4)",vec<float,2,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec2<float>(v4)",vec<float,2,AV<OWN,float,4>>) \
 E("vec3<float>(s,v1,v1)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec3<float>(v1,s,v1)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec3<float>(v1,z1,v1)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec3<float>(z1,v1,v1)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec3<float>(s,s,z2)",vec<float,3,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("vec3<float>(v1,s,z2)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec3<float>(z1,s,z2)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec3<float>(s,s,z3)",vec<float,3,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("vec3<float>(v1,s,z3)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec3<float>(z1,s,z3)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec3<float>(s,s,z4)",vec<float,3,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("vec3<float>(v1,s,z4)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec3<float>(z1,s,z4)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec3<float>(s,z2)",vec<float,3,AS<float>,AV<SWZ,float,2>>) \
 E("vec3<float>(s,z3)",vec<float,3,AS<float>,AV<SWZ,float,3>>) \
 E("vec3<float>(s,z4)",vec<float,3,AS<float>,AV<SWZ,float,4>>) \
 E("vec3<float>(v2,v1)",vec<float,3,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("vec3<float>(v2,z2)",vec<float,3,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("vec3<float>(z2,z3)",vec<float,3,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("vec3<float>(z3)",vec<float,3,AV<SWZ,float,3>>) \
 E("vec4<float>(s,s,v1,s)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(s,v1,s,s)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("vec4<float>(s,v1,z1,s)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(s,z1,v1,s)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(v1,s,s,s)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AS<float>>) \
 E("vec4<float>(v1,s,z1,s)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(v1,v1,v1,s)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(v1,z1,s,s)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("vec4<float>(v1,z1,z1,s)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(z1,s,v1,s)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(z1,v1,s,s)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("vec4<float>(z1,v1,z1,s)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(z1,z1,v1,s)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(s,s,s,v2)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(s,v1,s,v2)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(s,z1,s,v2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,s,s,v2)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,v1,s,v2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,z1,s,v2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,s,s,v2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,v1,s,v2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,z1,s,v2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(s,s,s,v3)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(s,v1,s,v3)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(s,z1,s,v3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,s,s,v3)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,v1,s,v3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,z1,s,v3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,s,s,v3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,v1,s,v3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,z1,s,v3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(s,s,s,v4)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v1,s,v4)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(s,z1,s,v4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,s,s,v4)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,v1,s,v4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,z1,s,v4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,s,s,v4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,v1,s,v4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,z1,s,v4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(s,s,v2)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,s,v2)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,s,v2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(s,s,v3)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,s,v3)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,s,v3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(s,s,v4)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,s,v4)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,s,v4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v2,s)",vec<float,4,AS<float>,AV<OWN,float,2>,AS<float>>) \
 E("vec4<float>(v1,v2,s)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AS<float>>) \
 E("vec4<float>(z1,v2,s)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AS<float>>) \
 E("vec4<float>(s,v2,v2)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,z2,v2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(s,v2,v3)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,z2,v3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(s,v2,v4)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,z2,v4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v3)",vec<float,4,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(s,v4)",vec<float,4,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(v2,s,s)",vec<float,4,AV<OWN,float,2>,AS<float>,AS<float>>) \
 E("vec4<float>(v2,z1,s)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(z2,v1,s)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(v2,s,v2)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(z2,s,v2)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,2>>) \
 E("vec4<float>(v2,s,v3)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(z2,s,v3)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,3>>) \
 E("vec4<float>(v2,s,v4)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(z2,s,v4)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,4>>) \
 E("vec4<float>(v2,v2)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(z2,v3)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(v3,s)",vec<float,4,AV<OWN,float,3>,AS<float>>) \
 E("vec4<float>(v3,v2)",vec<float,4,AV<OWN,float,3>,AV<OWN,float,2>>) \
 E("vec4<float>(z3,v3)",vec<float,4,AV<SWZ,float,3>,AV<OWN,float,3>>) \
 E("vec4<float>(v4)",vec<float,4,AV<OWN,float,4>>) \
 E("ovec2<float>(v1,v1)",ovec<float,2,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec2<float>(s,z2)",ovec<float,2,AS<float>,AV<SWZ,float,2>>) \
 E("ovec2<float>(s,z3)",ovec<float,2,AS<float>,AV<SWZ,float,3>>) \
 E("ovec2<float>(s,z4)",ovec<float,2,AS<float>,AV<SWZ,float,4>>) \
 E("ovec2<float>(z2)",ovec<float,2,AV<SWZ,float,2>>) \
 E("ovec3<float>(s,s,v1)",ovec<float,3,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("ovec3<float>(s,z1,v1)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec3<float>(v1,v1,v1)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec3<float>(z1,s,v1)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec3<float>(z1,z1,v1)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec3<float>(s,z1,v2)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(v1,z1,v2)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(z1,z1,v2)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(s,z1,v3)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(v1,z1,v3)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(z1,z1,v3)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(s,z1,v4)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(v1,z1,v4)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(z1,z1,v4)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(z1,v2)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(z1,v3)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(z1,v4)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(z2,v1)",ovec<float,3,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("ovec3<float>(v2,v3)",ovec<float,3,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("ovec3<float>(z2,v4)",ovec<float,3,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,s,s,s)",ovec<float,4,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("ovec4<float>(s,s,z1,s)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(s,v1,v1,s)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(s,z1,s,s)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("ovec4<float>(s,z1,z1,s)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(v1,s,v1,s)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(v1,v1,s,s)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("ovec4<float>(v1,v1,z1,s)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(v1,z1,v1,s)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(z1,s,s,s)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AS<float>>) \
 E("ovec4<float>(z1,s,z1,s)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(z1,v1,v1,s)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(z1,z1,s,s)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("ovec4<float>(z1,z1,z1,s)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(s,s,v1,z2)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,v1,v1,z2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,z1,v1,z2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,s,v1,z2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,v1,v1,z2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,z1,v1,z2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,s,v1,z2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,v1,v1,z2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,z1,v1,z2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,s,v1,z3)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,v1,v1,z3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,z1,v1,z3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,s,v1,z3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,v1,v1,z3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,z1,v1,z3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,s,v1,z3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,v1,v1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,z1,v1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,s,v1,z4)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,v1,v1,z4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z1,v1,z4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,s,v1,z4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,v1,v1,z4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,z1,v1,z4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,s,v1,z4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,v1,v1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,z1,v1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,v1,z2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,v1,z2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,v1,z2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,v1,z3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,v1,z3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,v1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,v1,z4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,v1,z4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,v1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z2,s)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AS<float>>) \
 E("ovec4<float>(v1,z2,s)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AS<float>>) \
 E("ovec4<float>(z1,z2,s)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AS<float>>) \
 E("ovec4<float>(s,z2,z2)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,v2,z2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,z2,z3)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,v2,z3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,z2,z4)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,v2,z4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,z3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,z4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v2,v1,s)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(z2,s,s)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AS<float>>) \
 E("ovec4<float>(z2,z1,s)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(v2,v1,z2)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z2,v1,z2)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v2,v1,z3)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z2,v1,z3)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v2,v1,z4)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z2,v1,z4)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z2,z2)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v2,z4)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z3,s)",ovec<float,4,AV<SWZ,float,3>,AS<float>>) \
 E("ovec4<float>(z3,z2)",ovec<float,4,AV<SWZ,float,3>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v3,z4)",ovec<float,4,AV<OWN,float,3>,AV<SWZ,float,4>>) \
 E("vec2<unsigned>(s_double,v1_unsigned)",vec<unsigned,2,AS<double>,AV<OWN,unsigned,1>>) \
 E("vec2<int>(s_ll,v4_unsigned)",vec<int,2,AS<long long>,AV<OWN,unsigned,4>>) \
 E("vec2<int>(z4_ll)",vec<int,2,AV<SWZ,long long,4>>) \
 E("vec3<long long>(s_unsigned,v1,z3_unsigned)",vec<long long,3,AS<unsigned>,AV<OWN,float,1>,AV<SWZ,unsigned,3>>) \
 E("vec3<bool>(s_unsigned,v3_int)",vec<bool,3,AS<unsigned>,AV<OWN,int,3>>) \
 E("vec3<unsigned>(v2_double,z2)",vec<unsigned,3,AV<OWN,double,2>,AV<SWZ,float,2>>) \
 E("vec3<double>(v3_double)",vec<double,3,AV<OWN,double,3>>) \
 E("vec4<unsigned>(v1,v1,s_bool,v2_double)",vec<unsigned,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<bool>,AV<OWN,double,2>>) \
 E("vec4<unsigned>(v1_unsigned,s_unsigned,z2_unsigned)",vec<unsigned,4,AV<OWN,unsigned,1>,AS<unsigned>,AV<SWZ,unsigned,2>>) \
 E("vec4<double>(s_double,v2,v1_unsigned)",vec<double,4,AS<double>,AV<OWN,float,2>,AV<OWN,unsigned,1>>) \
 E("vec4<unsigned>(v1_int,v2_int,z4)",vec<unsigned,4,AV<OWN,int,1>,AV<OWN,int,2>,AV<SWZ,float,4>>) \
 E("vec4<bool>(v2_double,z1_double,z1_unsigned)",vec<bool,4,AV<OWN,double,2>,AV<SWZ,double,1>,AV<SWZ,unsigned,1>>) \
 E("vec4<unsigned>(v2,z1_ll,v4_double)",vec<unsigned,4,AV<OWN,float,2>,AV<SWZ,long long,1>,AV<OWN,double,4>>) \
 E("vec4<double>(z2_unsigned,z4_double)",vec<double,4,AV<SWZ,unsigned,2>,AV<SWZ,double,4>>) \
 E("vec4<unsigned>(v3_double,v3_int)",vec<unsigned,4,AV<OWN,double,3>,AV<OWN,int,3>>) \
 E("ovec2<unsigned>(s_double,v1_unsigned)",ovec<unsigned,2,AS<double>,AV<OWN,unsigned,1>>) \
 E("ovec2<int>(s_ll,v4_unsigned)",ovec<int,2,AS<long long>,AV<OWN,unsigned,4>>) \
 E("ovec2<int>(z4_ll)",ovec<int,2,AV<SWZ,long long,4>>) \
 E("ovec3<long long>(s_unsigned,v1,z3_unsigned)",ovec<long long,3,AS<unsigned>,AV<OWN,float,1>,AV<SWZ,unsigned,3>>) \
 E("ovec3<bool>(s_unsigned,v3_int)",ovec<bool,3,AS<unsigned>,AV<OWN,int,3>>) \
 E("ovec3<unsigned>(v2_double,z2)",ovec<unsigned,3,AV<OWN,double,2>,AV<SWZ,float,2>>) \
 E("ovec3<double>(v3_double)",ovec<double,3,AV<OWN,double,3>>) \
 E("ovec4<unsigned>(v1,v1,s_bool,v2_double)",ovec<unsigned,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<bool>,AV<OWN,double,2>>) \
 E("ovec4<unsigned>(v1_unsigned,s_unsigned,z2_unsigned)",ovec<unsigned,4,AV<OWN,unsigned,1>,AS<unsigned>,AV<SWZ,unsigned,2>>) \
 E("ovec4<double>(s_double,v2,v1_unsigned)",ovec<double,4,AS<double>,AV<OWN,float,2>,AV<OWN,unsigned,1>>) \
 E("ovec4<unsigned>(v1_int,v2_int,z4)",ovec<unsigned,4,AV<OWN,int,1>,AV<OWN,int,2>,AV<SWZ,float,4>>) \
 E("ovec4<bool>(v2_double,z1_double,z1_unsigned)",ovec<bool,4,AV<OWN,double,2>,AV<SWZ,double,1>,AV<SWZ,unsigned,1>>) \
 E("ovec4<unsigned>(v2,z1_ll,v4_double)",ovec<unsigned,4,AV<OWN,float,2>,AV<SWZ,long long,1>,AV<OWN,double,4>>) \
 E("ovec4<double>(z2_unsigned,z4_double)",ovec<double,4,AV<SWZ,unsigned,2>,AV<SWZ,double,4>>) \
 E("ovec4<unsigned>(v3_double,v3_int)",ovec<unsigned,4,AV<OWN,double,3>,AV<OWN,int,3>>)
#define CT7_2 \
 E("vec2<float>(s,z1)",vec<float,2,AS<float>,AV<SWZ,float,1>>) \
 E("vec2<float>(z1,z1)",vec<float,2,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec2<float>(z1,z2)",vec<float,2,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec2<float>(z1,z3)",vec<float,2,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec2<float>(z1,z4)",vec<float,2,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec2<float>(z4)",vec<float,2,AV<SWZ,float,4>>) \
 E("vec3<float>(s,v1,z1)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec3<float>(v1,s,z1)",vec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec3<float>(v1,z1,z1)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec3<float>(z1,v1,z1)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec3<float>(s,v1,v2)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(v1,v1,v2)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(z1,v1,v2)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(s,v1,v3)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(v1,v1,v3)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(z1,v1,v3)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(s,v1,v4)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(v1,v1,v4)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(z1,v1,v4)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(v1,v2)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(v1,v3)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(v1,v4)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(v2,z1)",vec<float,3,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("vec3<float>(z2,v2)",vec<float,3,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("vec3<float>(v2,v4)",vec<float,3,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("vec3<float>(v4)",vec<float,3,AV<OWN,float,4>>) \
 E("vec4<float>(s,s,v1,v1)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(s,v1,s,v1)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(s,v1,z1,v1)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(s,z1,v1,v1)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,s,s,v1)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,s,z1,v1)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,v1,v1,v1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,z1,s,v1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,z1,z1,v1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,s,v1,v1)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,v1,s,v1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,v1,z1,v1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,z1,v1,v1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(s,s,s,z2)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,v1,s,z2)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,z1,s,z2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,s,s,z2)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,v1,s,z2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,z1,s,z2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,s,s,z2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,v1,s,z2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,z1,s,z2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,s,s,z3)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,v1,s,z3)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,z1,s,z3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,s,s,z3)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,v1,s,z3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,z1,s,z3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,s,s,z3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,v1,s,z3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,z1,s,z3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,s,s,z4)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,v1,s,z4)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z1,s,z4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,s,s,z4)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,v1,s,z4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,z1,s,z4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,s,s,z4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,v1,s,z4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,z1,s,z4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,s,z2)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,s,z2)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,s,z2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,s,z3)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,s,z3)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,s,z3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,s,z4)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,s,z4)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,s,z4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,v2,v1)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,v2,v1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,v2,v1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("vec4<float>(s,v2,z2)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,z2,z2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,v2,z3)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,z2,z3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,v2,z4)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,z2,z4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z3)",vec<float,4,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,z4)",vec<float,4,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(v2,s,v1)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(v2,z1,v1)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z2,v1,v1)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v2,s,z2)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(z2,s,z2)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,2>>) \
 E("vec4<float>(v2,s,z3)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(z2,s,z3)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,3>>) \
 E("vec4<float>(v2,s,z4)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(z2,s,z4)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,4>>) \
 E("vec4<float>(v2,z2)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(z2,z3)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(v3,v1)",vec<float,4,AV<OWN,float,3>,AV<OWN,float,1>>) \
 E("vec4<float>(v3,z2)",vec<float,4,AV<OWN,float,3>,AV<SWZ,float,2>>) \
 E("vec4<float>(z3,z3)",vec<float,4,AV<SWZ,float,3>,AV<SWZ,float,3>>) \
 E("vec4<float>(z4)",vec<float,4,AV<SWZ,float,4>>) \
 E("ovec2<float>(v1,z1)",ovec<float,2,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec2<float>(v1,v2)",ovec<float,2,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec2<float>(v1,v3)",ovec<float,2,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec2<float>(v1,v4)",ovec<float,2,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec2<float>(v3)",ovec<float,2,AV<OWN,float,3>>) \
 E("ovec3<float>(s,s,z1)",ovec<float,3,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec3<float>(s,z1,z1)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec3<float>(v1,v1,z1)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec3<float>(z1,s,z1)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec3<float>(z1,z1,z1)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec3<float>(s,z1,z2)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(v1,z1,z2)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(z1,z1,z2)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(s,z1,z3)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(v1,z1,z3)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(z1,z1,z3)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(s,z1,z4)",ovec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(v1,z1,z4)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z1,z1,z4)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z1,z2)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec3<float>(z1,z3)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec3<float>(z1,z4)",ovec<float,3,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z2,z1)",ovec<float,3,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("ovec3<float>(v2,z3)",ovec<float,3,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("ovec3<float>(z2,z4)",ovec<float,3,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,s,s,v1)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,s,z1,v1)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,v1,v1,v1)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,z1,s,v1)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,z1,z1,v1)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,s,v1,v1)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,v1,s,v1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,v1,z1,v1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,z1,v1,v1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,s,s,v1)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,s,z1,v1)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,v1,v1,v1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,z1,s,v1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,z1,z1,v1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,s,z1,v2)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,v1,z1,v2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,z1,z1,v2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,s,z1,v2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,v1,z1,v2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,z1,z1,v2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,s,z1,v2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,v1,z1,v2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,z1,z1,v2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,s,z1,v3)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,v1,z1,v3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,z1,z1,v3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,s,z1,v3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,v1,z1,v3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,z1,z1,v3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,s,z1,v3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,v1,z1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,z1,z1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,s,z1,v4)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v1,z1,v4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,z1,z1,v4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,s,z1,v4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,v1,z1,v4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,z1,z1,v4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,s,z1,v4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,v1,z1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,z1,z1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,z1,v2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,z1,v2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,z1,v2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,z1,v3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,z1,v3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,z1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,z1,v4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,z1,v4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,z1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,z2,v1)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,z2,v1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,z2,v1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,v2,v2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,z2,v2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,v2,v3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,z2,v3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,v2,v4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,z2,v4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,v3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,v4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v2,v1,v1)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z2,s,v1)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(z2,z1,v1)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v2,z1,v2)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(z2,z1,v2)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec4<float>(v2,z1,v3)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(z2,z1,v3)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec4<float>(v2,z1,v4)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(z2,z1,v4)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec4<float>(v2,v3)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(z2,v4)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(z3,v1)",ovec<float,4,AV<SWZ,float,3>,AV<OWN,float,1>>) \
 E("ovec4<float>(v3,v3)",ovec<float,4,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("ovec4<float>(z3,v4)",ovec<float,4,AV<SWZ,float,3>,AV<OWN,float,4>>) \
 E("vec2<unsigned>(z1_ll,v2_int)",vec<unsigned,2,AV<SWZ,long long,1>,AV<OWN,int,2>>) \
 E("vec2<long long>(v2_unsigned)",vec<long long,2,AV<OWN,unsigned,2>>) \
 E("vec3<unsigned>(v1,v1_int,v1_ll)",vec<unsigned,3,AV<OWN,float,1>,AV<OWN,int,1>,AV<OWN,long long,1>>) \
 E("vec3<long long>(v1_int,v1_bool,z4_ll)",vec<long long,3,AV<OWN,int,1>,AV<OWN,bool,1>,AV<SWZ,long long,4>>) \
 E("vec3<float>(s_int,v4_double)",vec<float,3,AS<int>,AV<OWN,double,4>>) \
 E("vec3<int>(z2_int,v3_ll)",vec<int,3,AV<SWZ,int,2>,AV<OWN,long long,3>>) \
 E("vec3<int>(v4_ll)",vec<int,3,AV<OWN,long long,4>>) \
 E("vec4<float>(v1_int,s_double,s_double,z3_double)",vec<float,4,AV<OWN,int,1>,AS<double>,AS<double>,AV<SWZ,double,3>>) \
 E("vec4<bool>(s_ll,z1_ll,z3_bool)",vec<bool,4,AS<long long>,AV<SWZ,long long,1>,AV<SWZ,bool,3>>) \
 E("vec4<int>(z1_ll,v2,z2_bool)",vec<int,4,AV<SWZ,long long,1>,AV<OWN,float,2>,AV<SWZ,bool,2>>) \
 E("vec4<bool>(v1_ll,v3_double)",vec<bool,4,AV<OWN,long long,1>,AV<OWN,double,3>>) \
 E("vec4<bool>(z2_unsigned,s_unsigned,v2_ll)",vec<bool,4,AV<SWZ,unsigned,2>,AS<unsigned>,AV<OWN,long long,2>>) \
 E("vec4<long long>(z2_unsigned,v2_bool)",vec<long long,4,AV<SWZ,unsigned,2>,AV<OWN,bool,2>>) \
 E("vec4<double>(z3_double,v1)",vec<double,4,AV<SWZ,double,3>,AV<OWN,float,1>>) \
 E("vec4<float>(z3_bool,v4)",vec<float,4,AV<SWZ,bool,3>,AV<OWN,float,4>>) \
 E("ovec2<unsigned>(z1_ll,v2_int)",ovec<unsigned,2,AV<SWZ,long long,1>,AV<OWN,int,2>>) \
 E("ovec2<long long>(v2_unsigned)",ovec<long long,2,AV<OWN,unsigned,2>>) \
 E("ovec3<unsigned>(v1,v1_int,v1_ll)",ovec<unsigned,3,AV<OWN,float,1>,AV<OWN,int,1>,AV<OWN,long long,1>>) \
 E("ovec3<long long>(v1_int,v1_bool,z4_ll)",ovec<long long,3,AV<OWN,int,1>,AV<OWN,bool,1>,AV<SWZ,long long,4>>) \
 E("ovec3<float>(s_int,v4_double)",ovec<float,3,AS<int>,AV<OWN,double,4>>) \
 E("ovec3<int>(z2_int,v3_ll)",ovec<int,3,AV<SWZ,int,2>,AV<OWN,long long,3>>) \
 E("ovec3<int>(v4_ll)",ovec<int,3,AV<OWN,long long,4>>) \
 E("ovec4<float>(v1_int,s_double,s_double,z3_double)",ovec<float,4,AV<OWN,int,1>,AS<double>,AS<double>,AV<SWZ,double,3>>) \
 E("ovec4<bool>(s_ll,z1_ll,z3_bool)",ovec<bool,4,AS<long long>,AV<SWZ,long long,1>,AV<SWZ,bool,3>>) \
 E("ovec4<int>(z1_ll,v2,z2_bool)",ovec<int,4,AV<SWZ,long long,1>,AV<OWN,float,2>,AV<SWZ,bool,2>>) \
 E("ovec4<bool>(v1_ll,v3_double)",ovec<bool,4,AV<OWN,long long,1>,AV<OWN,double,3>>) \
 E("ovec4<bool>(z2_unsigned,s_unsigned,v2_ll)",ovec<bool,4,AV<SWZ,unsigned,2>,AS<unsigned>,AV<OWN,long long,2>>) \
 E("ovec4<long long>(z2_unsigned,v2_bool)",ovec<long long,4,AV<SWZ,unsigned,2>,AV<OWN,bool,2>>) \
 E("ovec4<double>(z3_double,v1)",ovec<double,4,AV<SWZ,double,3>,AV<OWN,float,1>>) \
 E("ovec4<float>(z3_bool,v4)",ovec<float,4,AV<SWZ,bool,3>,AV<OWN,float,4>>)
#define CT7_3 \
 E("vec2<float>(v1,s)",vec<float,2,AV<OWN,float,1>,AS<float>>) \
 E("vec2<float>(s,v2)",vec<float,2,AS<float>,AV<OWN,float,2>>) \
 E("vec2<float>(s,v3)",vec<float,2,AS<float>,AV<OWN,float,3>>) \
 E("vec2<float>(s,v4)",vec<float,2,AS<float>,AV<OWN,float,4>>) \
 E("vec2<float>(v2)",vec<float,2,AV<OWN,float,2>>) \
 E("vec3<float>(s,s,s)",vec<float,3,AS<float>,AS<float>,AS<float>>) \
 E("vec3<float>(s,z1,s)",vec<float,3,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("vec3<float>(v1,v1,s)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec3<float>(z1,s,s)",vec<float,3,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("vec3<float>(z1,z1,s)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec3<float>(s,v1,z2)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(v1,v1,z2)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(z1,v1,z2)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(s,v1,z3)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(v1,v1,z3)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(z1,v1,z3)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(s,v1,z4)",vec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(v1,v1,z4)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(z1,v1,z4)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(v1,z2)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(v1,z3)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(v1,z4)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(z2,s)",vec<float,3,AV<SWZ,float,2>,AS<float>>) \
 E("vec3<float>(z2,z2)",vec<float,3,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("vec3<float>(v2,z4)",vec<float,3,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("vec3<float>(z4)",vec<float,3,AV<SWZ,float,4>>) \
 E("vec4<float>(s,s,v1,z1)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,v1,s,z1)",vec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,v1,z1,z1)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,z1,v1,z1)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,s,s,z1)",vec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,s,z1,z1)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,v1,v1,z1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,z1,s,z1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,z1,z1,z1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,s,v1,z1)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,v1,s,z1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,v1,z1,z1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,z1,v1,z1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,s,v1,v2)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,v1,v1,v2)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,z1,v1,v2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,s,v1,v2)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,v1,v1,v2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,z1,v1,v2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,s,v1,v2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,v1,v1,v2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,z1,v1,v2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,s,v1,v3)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,v1,v1,v3)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,z1,v1,v3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,s,v1,v3)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,v1,v1,v3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,z1,v1,v3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,s,v1,v3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,v1,v1,v3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,z1,v1,v3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,s,v1,v4)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v1,v1,v4)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,z1,v1,v4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,s,v1,v4)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,v1,v1,v4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,z1,v1,v4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,s,v1,v4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,v1,v1,v4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,z1,v1,v4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v1,v2)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,v1,v2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,v1,v2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,v1,v3)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,v1,v3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,v1,v3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,v1,v4)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,v1,v4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,v1,v4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v2,z1)",vec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("vec4<float>(v1,v2,z1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("vec4<float>(z1,v2,z1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("vec4<float>(s,z2,v2)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,v2,v2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(s,z2,v3)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,v2,v3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(s,z2,v4)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,v2,v4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,v3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,v4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v2,s,z1)",vec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,1>>) \
 E("vec4<float>(v2,z1,z1)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(z2,v1,z1)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec4<float>(v2,v1,v2)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z2,v1,v2)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v2,v1,v3)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z2,v1,v3)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v2,v1,v4)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z2,v1,v4)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z2,v2)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(v2,v4)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(v3,z1)",vec<float,4,AV<OWN,float,3>,AV<SWZ,float,1>>) \
 E("vec4<float>(z3,v2)",vec<float,4,AV<SWZ,float,3>,AV<OWN,float,2>>) \
 E("vec4<float>(v3,v4)",vec<float,4,AV<OWN,float,3>,AV<OWN,float,4>>) \
 E("ovec2<float>(s,s)",ovec<float,2,AS<float>,AS<float>>) \
 E("ovec2<float>(z1,s)",ovec<float,2,AV<SWZ,float,1>,AS<float>>) \
 E("ovec2<float>(v1,z2)",ovec<float,2,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("ovec2<float>(v1,z3)",ovec<float,2,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("ovec2<float>(v1,z4)",ovec<float,2,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("ovec2<float>(z3)",ovec<float,2,AV<SWZ,float,3>>) \
 E("ovec3<float>(s,v1,s)",ovec<float,3,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("ovec3<float>(v1,s,s)",ovec<float,3,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("ovec3<float>(v1,z1,s)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec3<float>(z1,v1,s)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec3<float>(s,s,v2)",ovec<float,3,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("ovec3<float>(v1,s,v2)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec3<float>(z1,s,v2)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec3<float>(s,s,v3)",ovec<float,3,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("ovec3<float>(v1,s,v3)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec3<float>(z1,s,v3)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec3<float>(s,s,v4)",ovec<float,3,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("ovec3<float>(v1,s,v4)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec3<float>(z1,s,v4)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec3<float>(s,v2)",ovec<float,3,AS<float>,AV<OWN,float,2>>) \
 E("ovec3<float>(s,v3)",ovec<float,3,AS<float>,AV<OWN,float,3>>) \
 E("ovec3<float>(s,v4)",ovec<float,3,AS<float>,AV<OWN,float,4>>) \
 E("ovec3<float>(v2,s)",ovec<float,3,AV<OWN,float,2>,AS<float>>) \
 E("ovec3<float>(v2,v2)",ovec<float,3,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("ovec3<float>(z2,v3)",ovec<float,3,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("ovec3<float>(v3)",ovec<float,3,AV<OWN,float,3>>) \
 E("ovec4<float>(s,s,s,z1)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,s,z1,z1)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,v1,v1,z1)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,z1,s,z1)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,z1,z1,z1)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,s,v1,z1)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,v1,s,z1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,v1,z1,z1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,z1,v1,z1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,s,s,z1)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,s,z1,z1)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,v1,v1,z1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,z1,s,z1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,z1,z1,z1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(s,s,z1,z2)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,v1,z1,z2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,z1,z1,z2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,s,z1,z2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,v1,z1,z2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,z1,z1,z2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,s,z1,z2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,v1,z1,z2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,z1,z1,z2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,s,z1,z3)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,v1,z1,z3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,z1,z1,z3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,s,z1,z3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,v1,z1,z3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,z1,z1,z3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,s,z1,z3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,v1,z1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,z1,z1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,s,z1,z4)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,v1,z1,z4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z1,z1,z4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,s,z1,z4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,v1,z1,z4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,z1,z1,z4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,s,z1,z4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,v1,z1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,z1,z1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z1,z2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,z1,z2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,z1,z2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,z1,z3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,z1,z3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,z1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,z1,z4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,z1,z4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,z1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z2,z1)",ovec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,z2,z1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z1,z2,z1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v1,v2,z2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,z2,z2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,v2,z3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,z2,z3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,v2,z4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,z2,z4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,z3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,z4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v2,v1,z1)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z2,s,z1)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec4<float>(z2,z1,z1)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v2,z1,z2)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z2,z1,z2)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v2,z1,z3)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z2,z1,z3)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v2,z1,z4)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z2,z1,z4)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v2,z3)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z2,z4)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z3,z1)",ovec<float,4,AV<SWZ,float,3>,AV<SWZ,float,1>>) \
 E("ovec4<float>(v3,z3)",ovec<float,4,AV<OWN,float,3>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z3,z4)",ovec<float,4,AV<SWZ,float,3>,AV<SWZ,float,4>>) \
 E("vec2<unsigned>(v1_double,v2)",vec<unsigned,2,AV<OWN,double,1>,AV<OWN,float,2>>) \
 E("vec2<int>(v2_bool)",vec<int,2,AV<OWN,bool,2>>) \
 E("vec3<double>(s_int,v1_double,s_double)",vec<double,3,AS<int>,AV<OWN,double,1>,AS<double>>) \
 E("vec3<bool>(v1_double,s_int,v4_ll)",vec<bool,3,AV<OWN,double,1>,AS<int>,AV<OWN,long long,4>>) \
 E("vec3<double>(v1,z4_int)",vec<double,3,AV<OWN,float,1>,AV<SWZ,int,4>>) \
 E("vec3<long long>(z2_bool,v3_double)",vec<long long,3,AV<SWZ,bool,2>,AV<OWN,double,3>>) \
 E("vec3<float>(z4_int)",vec<float,3,AV<SWZ,int,4>>) \
 E("vec4<double>(s_int,s_ll,z1,z3_ll)",vec<double,4,AS<int>,AS<long long>,AV<SWZ,float,1>,AV<SWZ,long long,3>>) \
 E("vec4<unsigned>(z1_double,s_int,z3)",vec<unsigned,4,AV<SWZ,double,1>,AS<int>,AV<SWZ,float,3>>) \
 E("vec4<double>(v1_int,z2,v2_bool)",vec<double,4,AV<OWN,int,1>,AV<SWZ,float,2>,AV<OWN,bool,2>>) \
 E("vec4<int>(s_double,z3_int)",vec<int,4,AS<double>,AV<SWZ,int,3>>) \
 E("vec4<int>(z2,s_double,v2_double)",vec<int,4,AV<SWZ,float,2>,AS<double>,AV<OWN,double,2>>) \
 E("vec4<unsigned>(v2_double,v2_double)",vec<unsigned,4,AV<OWN,double,2>,AV<OWN,double,2>>) \
 E("vec4<long long>(v3_double,s_unsigned)",vec<long long,4,AV<OWN,double,3>,AS<unsigned>>) \
 E("vec4<bool>(z3_unsigned,v4_bool)",vec<bool,4,AV<SWZ,unsigned,3>,AV<OWN,bool,4>>) \
 E("ovec2<unsigned>(v1_double,v2)",ovec<unsigned,2,AV<OWN,double,1>,AV<OWN,float,2>>) \
 E("ovec2<int>(v2_bool)",ovec<int,2,AV<OWN,bool,2>>) \
 E("ovec3<double>(s_int,v1_double,s_double)",ovec<double,3,AS<int>,AV<OWN,double,1>,AS<double>>) \
 E("ovec3<bool>(v1_double,s_int,v4_ll)",ovec<bool,3,AV<OWN,double,1>,AS<int>,AV<OWN,long long,4>>) \
 E("ovec3<double>(v1,z4_int)",ovec<double,3,AV<OWN,float,1>,AV<SWZ,int,4>>) \
 E("ovec3<long long>(z2_bool,v3_double)",ovec<long long,3,AV<SWZ,bool,2>,AV<OWN,double,3>>) \
 E("ovec3<float>(z4_int)",ovec<float,3,AV<SWZ,int,4>>) \
 E("ovec4<double>(s_int,s_ll,z1,z3_ll)",ovec<double,4,AS<int>,AS<long long>,AV<SWZ,float,1>,AV<SWZ,long long,3>>) \
 E("ovec4<unsigned>(z1_double,s_int,z3)",ovec<unsigned,4,AV<SWZ,double,1>,AS<int>,AV<SWZ,float,3>>) \
 E("ovec4<double>(v1_int,z2,v2_bool)",ovec<double,4,AV<OWN,int,1>,AV<SWZ,float,2>,AV<OWN,bool,2>>) \
 E("ovec4<int>(s_double,z3_int)",ovec<int,4,AS<double>,AV<SWZ,int,3>>) \
 E("ovec4<int>(z2,s_double,v2_double)",ovec<int,4,AV<SWZ,float,2>,AS<double>,AV<OWN,double,2>>) \
 E("ovec4<unsigned>(v2_double,v2_double)",ovec<unsigned,4,AV<OWN,double,2>,AV<OWN,double,2>>) \
 E("ovec4<long long>(v3_double,s_unsigned)",ovec<long long,4,AV<OWN,double,3>,AS<unsigned>>) \
 E("ovec4<bool>(z3_unsigned,v4_bool)",ovec<bool,4,AV<SWZ,unsigned,3>,AV<OWN,bool,4>>)
#define CT7_4 \
 E("vec2<float>(v1,v1)",vec<float,2,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec2<float>(s,z2)",vec<float,2,AS<float>,AV<SWZ,float,2>>) \
 E("vec2<float>(s,z3)",vec<float,2,AS<float>,AV<SWZ,float,3>>) \
 E("vec2<float>(s,z4)",vec<float,2,AS<float>,AV<SWZ,float,4>>) \
 E("vec2<float>(z2)",vec<float,2,AV<SWZ,float,2>>) \
 E("vec3<float>(s,s,v1)",vec<float,3,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("vec3<float>(s,z1,v1)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec3<float>(v1,v1,v1)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec3<float>(z1,s,v1)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec3<float>(z1,z1,v1)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec3<float>(s,z1,v2)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(v1,z1,v2)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(z1,z1,v2)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(s,z1,v3)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(v1,z1,v3)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(z1,z1,v3)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(s,z1,v4)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(v1,z1,v4)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(z1,z1,v4)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(z1,v2)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec3<float>(z1,v3)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec3<float>(z1,v4)",vec<float,3,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec3<float>(z2,v1)",vec<float,3,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("vec3<float>(v2,v3)",vec<float,3,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("vec3<float>(z2,v4)",vec<float,3,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(s,s,s,s)",vec<float,4,AS<float>,AS<float>,AS<float>,AS<float>>) \
 E("vec4<float>(s,s,z1,s)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(s,v1,v1,s)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(s,z1,s,s)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("vec4<float>(s,z1,z1,s)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(v1,s,v1,s)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(v1,v1,s,s)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("vec4<float>(v1,v1,z1,s)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(v1,z1,v1,s)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(z1,s,s,s)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AS<float>>) \
 E("vec4<float>(z1,s,z1,s)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(z1,v1,v1,s)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(z1,z1,s,s)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("vec4<float>(z1,z1,z1,s)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(s,s,v1,z2)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,v1,v1,z2)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,z1,v1,z2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,s,v1,z2)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,v1,v1,z2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,z1,v1,z2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,s,v1,z2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,v1,v1,z2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,z1,v1,z2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,s,v1,z3)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,v1,v1,z3)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,z1,v1,z3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,s,v1,z3)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,v1,v1,z3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,z1,v1,z3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,s,v1,z3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,v1,v1,z3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,z1,v1,z3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,s,v1,z4)",vec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,v1,v1,z4)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z1,v1,z4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,s,v1,z4)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,v1,v1,z4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,z1,v1,z4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,s,v1,z4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,v1,v1,z4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,z1,v1,z4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,v1,z2)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v1,v1,z2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,v1,z2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,v1,z3)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,v1,z3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,v1,z3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,v1,z4)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,v1,z4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,v1,z4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,z2,s)",vec<float,4,AS<float>,AV<SWZ,float,2>,AS<float>>) \
 E("vec4<float>(v1,z2,s)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AS<float>>) \
 E("vec4<float>(z1,z2,s)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AS<float>>) \
 E("vec4<float>(s,z2,z2)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(z1,v2,z2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(s,z2,z3)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(z1,v2,z3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("vec4<float>(s,z2,z4)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(z1,v2,z4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(v1,z3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v1,z4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(v2,v1,s)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AS<float>>) \
 E("vec4<float>(z2,s,s)",vec<float,4,AV<SWZ,float,2>,AS<float>,AS<float>>) \
 E("vec4<float>(z2,z1,s)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AS<float>>) \
 E("vec4<float>(v2,v1,z2)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(z2,v1,z2)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,2>>) \
 E("vec4<float>(v2,v1,z3)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(z2,v1,z3)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,3>>) \
 E("vec4<float>(v2,v1,z4)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z2,v1,z4)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<SWZ,float,4>>) \
 E("vec4<float>(z2,z2)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("vec4<float>(v2,z4)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(z3,s)",vec<float,4,AV<SWZ,float,3>,AS<float>>) \
 E("vec4<float>(z3,z2)",vec<float,4,AV<SWZ,float,3>,AV<SWZ,float,2>>) \
 E("vec4<float>(v3,z4)",vec<float,4,AV<OWN,float,3>,AV<SWZ,float,4>>) \
 E("ovec2<float>(s,v1)",ovec<float,2,AS<float>,AV<OWN,float,1>>) \
 E("ovec2<float>(z1,v1)",ovec<float,2,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec2<float>(z1,v2)",ovec<float,2,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("ovec2<float>(z1,v3)",ovec<float,2,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("ovec2<float>(z1,v4)",ovec<float,2,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("ovec2<float>(v4)",ovec<float,2,AV<OWN,float,4>>) \
 E("ovec3<float>(s,v1,v1)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec3<float>(v1,s,v1)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec3<float>(v1,z1,v1)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec3<float>(z1,v1,v1)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec3<float>(s,s,z2)",ovec<float,3,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec3<float>(v1,s,z2)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec3<float>(z1,s,z2)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec3<float>(s,s,z3)",ovec<float,3,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec3<float>(v1,s,z3)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec3<float>(z1,s,z3)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec3<float>(s,s,z4)",ovec<float,3,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec3<float>(v1,s,z4)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec3<float>(z1,s,z4)",ovec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec3<float>(s,z2)",ovec<float,3,AS<float>,AV<SWZ,float,2>>) \
 E("ovec3<float>(s,z3)",ovec<float,3,AS<float>,AV<SWZ,float,3>>) \
 E("ovec3<float>(s,z4)",ovec<float,3,AS<float>,AV<SWZ,float,4>>) \
 E("ovec3<float>(v2,v1)",ovec<float,3,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("ovec3<float>(v2,z2)",ovec<float,3,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("ovec3<float>(z2,z3)",ovec<float,3,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("ovec3<float>(z3)",ovec<float,3,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,s,v1,s)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(s,v1,s,s)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("ovec4<float>(s,v1,z1,s)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(s,z1,v1,s)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(v1,s,s,s)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AS<float>>) \
 E("ovec4<float>(v1,s,z1,s)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(v1,v1,v1,s)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(v1,z1,s,s)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AS<float>>) \
 E("ovec4<float>(v1,z1,z1,s)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(z1,s,v1,s)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(z1,v1,s,s)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AS<float>>) \
 E("ovec4<float>(z1,v1,z1,s)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(z1,z1,v1,s)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(s,s,s,v2)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,v1,s,v2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,z1,s,v2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,s,s,v2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,v1,s,v2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,z1,s,v2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,s,s,v2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,v1,s,v2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,z1,s,v2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,s,s,v3)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,v1,s,v3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,z1,s,v3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,s,s,v3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,v1,s,v3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,z1,s,v3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,s,s,v3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,v1,s,v3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,z1,s,v3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,s,s,v4)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v1,s,v4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,z1,s,v4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,s,s,v4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,v1,s,v4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,z1,s,v4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,s,s,v4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,v1,s,v4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,z1,s,v4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,s,v2)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,s,v2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(z1,s,v2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,s,v3)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,s,v3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(z1,s,v3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,s,v4)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,s,v4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(z1,s,v4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v2,s)",ovec<float,4,AS<float>,AV<OWN,float,2>,AS<float>>) \
 E("ovec4<float>(v1,v2,s)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AS<float>>) \
 E("ovec4<float>(z1,v2,s)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AS<float>>) \
 E("ovec4<float>(s,v2,v2)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(v1,z2,v2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(s,v2,v3)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(v1,z2,v3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,v2,v4)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(v1,z2,v4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("ovec4<float>(s,v3)",ovec<float,4,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(s,v4)",ovec<float,4,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(v2,s,s)",ovec<float,4,AV<OWN,float,2>,AS<float>,AS<float>>) \
 E("ovec4<float>(v2,z1,s)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AS<float>>) \
 E("ovec4<float>(z2,v1,s)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AS<float>>) \
 E("ovec4<float>(v2,s,v2)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(z2,s,v2)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,2>>) \
 E("ovec4<float>(v2,s,v3)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(z2,s,v3)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,3>>) \
 E("ovec4<float>(v2,s,v4)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(z2,s,v4)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,4>>) \
 E("ovec4<float>(v2,v2)",ovec<float,4,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("ovec4<float>(z2,v3)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("ovec4<float>(v3,s)",ovec<float,4,AV<OWN,float,3>,AS<float>>) \
 E("ovec4<float>(v3,v2)",ovec<float,4,AV<OWN,float,3>,AV<OWN,float,2>>) \
 E("ovec4<float>(z3,v3)",ovec<float,4,AV<SWZ,float,3>,AV<OWN,float,3>>) \
 E("ovec4<float>(v4)",ovec<float,4,AV<OWN,float,4>>) \
 E("vec2<bool>(s,v3)",vec<bool,2,AS<float>,AV<OWN,float,3>>) \
 E("vec2<float>(z3_int)",vec<float,2,AV<SWZ,int,3>>) \
 E("vec3<long long>(v1_unsigned,v1_ll,z2)",vec<long long,3,AV<OWN,unsigned,1>,AV<OWN,long long,1>,AV<SWZ,float,2>>) \
 E("vec3<unsigned>(s_bool,v2)",vec<unsigned,3,AS<bool>,AV<OWN,float,2>>) \
 E("vec3<unsigned>(v2,s_int)",vec<unsigned,3,AV<OWN,float,2>,AS<int>>) \
 E("vec3<bool>(z2,v4_bool)",vec<bool,3,AV<SWZ,float,2>,AV<OWN,bool,4>>) \
 E("vec4<long long>(z1_int,z1_bool,z1_ll,v1_int)",vec<long long,4,AV<SWZ,int,1>,AV<SWZ,bool,1>,AV<SWZ,long long,1>,AV<OWN,int,1>>) \
 E("vec4<long long>(v1,s_double,v1_double,z4)",vec<long long,4,AV<OWN,float,1>,AS<double>,AV<OWN,double,1>,AV<SWZ,float,4>>) \
 E("vec4<bool>(z1_int,z1_double,z4_double)",vec<bool,4,AV<SWZ,int,1>,AV<SWZ,double,1>,AV<SWZ,double,4>>) \
 E("vec4<double>(s_int,z2_double,v3_unsigned)",vec<double,4,AS<int>,AV<SWZ,double,2>,AV<OWN,unsigned,3>>) \
 E("vec4<long long>(v1_ll,z4_ll)",vec<long long,4,AV<OWN,long long,1>,AV<SWZ,long long,4>>) \
 E("vec4<bool>(v2_unsigned,z1_bool,z3)",vec<bool,4,AV<OWN,unsigned,2>,AV<SWZ,bool,1>,AV<SWZ,float,3>>) \
 E("vec4<bool>(z2_double,v3_ll)",vec<bool,4,AV<SWZ,double,2>,AV<OWN,long long,3>>) \
 E("vec4<bool>(z3_int,z2_unsigned)",vec<bool,4,AV<SWZ,int,3>,AV<SWZ,unsigned,2>>) \
 E("vec4<bool>(v4_double)",vec<bool,4,AV<OWN,double,4>>) \
 E("ovec2<bool>(s,v3)",ovec<bool,2,AS<float>,AV<OWN,float,3>>) \
 E("ovec2<float>(z3_int)",ovec<float,2,AV<SWZ,int,3>>) \
 E("ovec3<long long>(v1_unsigned,v1_ll,z2)",ovec<long long,3,AV<OWN,unsigned,1>,AV<OWN,long long,1>,AV<SWZ,float,2>>) \
 E("ovec3<unsigned>(s_bool,v2)",ovec<unsigned,3,AS<bool>,AV<OWN,float,2>>) \
 E("ovec3<unsigned>(v2,s_int)",ovec<unsigned,3,AV<OWN,float,2>,AS<int>>) \
 E("ovec3<bool>(z2,v4_bool)",ovec<bool,3,AV<SWZ,float,2>,AV<OWN,bool,4>>) \
 E("ovec4<long long>(z1_int,z1_bool,z1_ll,v1_int)",ovec<long long,4,AV<SWZ,int,1>,AV<SWZ,bool,1>,AV<SWZ,long long,1>,AV<OWN,int,1>>) \
 E("ovec4<long long>(v1,s_double,v1_double,z4)",ovec<long long,4,AV<OWN,float,1>,AS<double>,AV<OWN,double,1>,AV<SWZ,float,4>>) \
 E("ovec4<bool>(z1_int,z1_double,z4_double)",ovec<bool,4,AV<SWZ,int,1>,AV<SWZ,double,1>,AV<SWZ,double,4>>) \
 E("ovec4<double>(s_int,z2_double,v3_unsigned)",ovec<double,4,AS<int>,AV<SWZ,double,2>,AV<OWN,unsigned,3>>) \
 E("ovec4<long long>(v1_ll,z4_ll)",ovec<long long,4,AV<OWN,long long,1>,AV<SWZ,long long,4>>) \
 E("ovec4<bool>(v2_unsigned,z1_bool,z3)",ovec<bool,4,AV<OWN,unsigned,2>,AV<SWZ,bool,1>,AV<SWZ,float,3>>) \
 E("ovec4<bool>(z2_double,v3_ll)",ovec<bool,4,AV<SWZ,double,2>,AV<OWN,long long,3>>) \
 E("ovec4<bool>(z3_int,z2_unsigned)",ovec<bool,4,AV<SWZ,int,3>,AV<SWZ,unsigned,2>>) \
 E("ovec4<bool>(v4_double)",ovec<bool,4,AV<OWN,double,4>>)
#define CT7_5 \
 E("vec2<float>(v1,z1)",vec<float,2,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec2<float>(v1,v2)",vec<float,2,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("vec2<float>(v1,v3)",vec<float,2,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("vec2<float>(v1,v4)",vec<float,2,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("vec2<float>(v3)",vec<float,2,AV<OWN,float,3>>) \
 E("vec3<float>(s,s,z1)",vec<float,3,AS<float>,AS<float>,AV<SWZ,float,1>>) \
 E("vec3<float>(s,z1,z1)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec3<float>(v1,v1,z1)",vec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("vec3<float>(z1,s,z1)",vec<float,3,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("vec3<float>(z1,z1,z1)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("vec3<float>(s,z1,z2)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(v1,z1,z2)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(z1,z1,z2)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(s,z1,z3)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(v1,z1,z3)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(z1,z1,z3)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(s,z1,z4)",vec<float,3,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(v1,z1,z4)",vec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(z1,z1,z4)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(z1,z2)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("vec3<float>(z1,z3)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("vec3<float>(z1,z4)",vec<float,3,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("vec3<float>(z2,z1)",vec<float,3,AV<SWZ,float,2>,AV<SWZ,float,1>>) \
 E("vec3<float>(v2,z3)",vec<float,3,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("vec3<float>(z2,z4)",vec<float,3,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("vec4<float>(s,s,s,v1)",vec<float,4,AS<float>,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(s,s,z1,v1)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(s,v1,v1,v1)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(s,z1,s,v1)",vec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(s,z1,z1,v1)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,s,v1,v1)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,v1,s,v1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,v1,z1,v1)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,z1,v1,v1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,s,s,v1)",vec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,s,z1,v1)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,v1,v1,v1)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,z1,s,v1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,z1,z1,v1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(s,s,z1,v2)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,v1,z1,v2)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,z1,z1,v2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,s,z1,v2)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,v1,z1,v2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,z1,z1,v2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,s,z1,v2)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,v1,z1,v2)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,z1,z1,v2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,s,z1,v3)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,v1,z1,v3)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,z1,z1,v3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,s,z1,v3)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,v1,z1,v3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,z1,z1,v3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,s,z1,v3)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,v1,z1,v3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,z1,z1,v3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,s,z1,v4)",vec<float,4,AS<float>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,v1,z1,v4)",vec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,z1,z1,v4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,s,z1,v4)",vec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,v1,z1,v4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,z1,z1,v4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,s,z1,v4)",vec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,v1,z1,v4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,z1,z1,v4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,z1,v2)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,z1,v2)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,z1,v2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(s,z1,v3)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,z1,v3)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,z1,v3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(s,z1,v4)",vec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v1,z1,v4)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,z1,v4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(s,z2,v1)",vec<float,4,AS<float>,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,z2,v1)",vec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("vec4<float>(z1,z2,v1)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,1>>) \
 E("vec4<float>(v1,v2,v2)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(z1,z2,v2)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("vec4<float>(v1,v2,v3)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,z2,v3)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(v1,v2,v4)",vec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,z2,v4)",vec<float,4,AV<SWZ,float,1>,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(z1,v3)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z1,v4)",vec<float,4,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v2,v1,v1)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(z2,s,v1)",vec<float,4,AV<SWZ,float,2>,AS<float>,AV<OWN,float,1>>) \
 E("vec4<float>(z2,z1,v1)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("vec4<float>(v2,z1,v2)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(z2,z1,v2)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,2>>) \
 E("vec4<float>(v2,z1,v3)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(z2,z1,v3)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,3>>) \
 E("vec4<float>(v2,z1,v4)",vec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(z2,z1,v4)",vec<float,4,AV<SWZ,float,2>,AV<SWZ,float,1>,AV<OWN,float,4>>) \
 E("vec4<float>(v2,v3)",vec<float,4,AV<OWN,float,2>,AV<OWN,float,3>>) \
 E("vec4<float>(z2,v4)",vec<float,4,AV<SWZ,float,2>,AV<OWN,float,4>>) \
 E("vec4<float>(z3,v1)",vec<float,4,AV<SWZ,float,3>,AV<OWN,float,1>>) \
 E("vec4<float>(v3,v3)",vec<float,4,AV<OWN,float,3>,AV<OWN,float,3>>) \
 E("vec4<float>(z3,v4)",vec<float,4,AV<SWZ,float,3>,AV<OWN,float,4>>) \
 E("ovec2<float>(s,z1)",ovec<float,2,AS<float>,AV<SWZ,float,1>>) \
 E("ovec2<float>(z1,z1)",ovec<float,2,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec2<float>(z1,z2)",ovec<float,2,AV<SWZ,float,1>,AV<SWZ,float,2>>) \
 E("ovec2<float>(z1,z3)",ovec<float,2,AV<SWZ,float,1>,AV<SWZ,float,3>>) \
 E("ovec2<float>(z1,z4)",ovec<float,2,AV<SWZ,float,1>,AV<SWZ,float,4>>) \
 E("ovec2<float>(z4)",ovec<float,2,AV<SWZ,float,4>>) \
 E("ovec3<float>(s,v1,z1)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec3<float>(v1,s,z1)",ovec<float,3,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>>) \
 E("ovec3<float>(v1,z1,z1)",ovec<float,3,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>>) \
 E("ovec3<float>(z1,v1,z1)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>>) \
 E("ovec3<float>(s,v1,v2)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(v1,v1,v2)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(z1,v1,v2)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(s,v1,v3)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(v1,v1,v3)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(z1,v1,v3)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(s,v1,v4)",ovec<float,3,AS<float>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(v1,v1,v4)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(z1,v1,v4)",ovec<float,3,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(v1,v2)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,2>>) \
 E("ovec3<float>(v1,v3)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,3>>) \
 E("ovec3<float>(v1,v4)",ovec<float,3,AV<OWN,float,1>,AV<OWN,float,4>>) \
 E("ovec3<float>(v2,z1)",ovec<float,3,AV<OWN,float,2>,AV<SWZ,float,1>>) \
 E("ovec3<float>(z2,v2)",ovec<float,3,AV<SWZ,float,2>,AV<OWN,float,2>>) \
 E("ovec3<float>(v2,v4)",ovec<float,3,AV<OWN,float,2>,AV<OWN,float,4>>) \
 E("ovec3<float>(v4)",ovec<float,3,AV<OWN,float,4>>) \
 E("ovec4<float>(s,s,v1,v1)",ovec<float,4,AS<float>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,v1,s,v1)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,v1,z1,v1)",ovec<float,4,AS<float>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,z1,v1,v1)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,s,s,v1)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,s,z1,v1)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,v1,v1,v1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,z1,s,v1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,z1,z1,v1)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,s,v1,v1)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,v1,s,v1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,v1,z1,v1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,z1,v1,v1)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,s,s,z2)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,v1,s,z2)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,z1,s,z2)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,s,s,z2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,v1,s,z2)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,z1,s,z2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,s,s,z2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,v1,s,z2)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,z1,s,z2)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,s,s,z3)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,v1,s,z3)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,z1,s,z3)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,s,s,z3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,v1,s,z3)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,z1,s,z3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,s,s,z3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,v1,s,z3)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,z1,s,z3)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,s,s,z4)",ovec<float,4,AS<float>,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,v1,s,z4)",ovec<float,4,AS<float>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z1,s,z4)",ovec<float,4,AS<float>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,s,s,z4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,v1,s,z4)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,z1,s,z4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,s,s,z4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,v1,s,z4)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,z1,s,z4)",ovec<float,4,AV<SWZ,float,1>,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,s,z2)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,s,z2)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z1,s,z2)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,s,z3)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,s,z3)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z1,s,z3)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,s,z4)",ovec<float,4,AS<float>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,s,z4)",ovec<float,4,AV<OWN,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z1,s,z4)",ovec<float,4,AV<SWZ,float,1>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,v2,v1)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("ovec4<float>(v1,v2,v1)",ovec<float,4,AV<OWN,float,1>,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("ovec4<float>(z1,v2,v1)",ovec<float,4,AV<SWZ,float,1>,AV<OWN,float,2>,AV<OWN,float,1>>) \
 E("ovec4<float>(s,v2,z2)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v1,z2,z2)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(s,v2,z3)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v1,z2,z3)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,v2,z4)",ovec<float,4,AS<float>,AV<OWN,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v1,z2,z4)",ovec<float,4,AV<OWN,float,1>,AV<SWZ,float,2>,AV<SWZ,float,4>>) \
 E("ovec4<float>(s,z3)",ovec<float,4,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(s,z4)",ovec<float,4,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v2,s,v1)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<OWN,float,1>>) \
 E("ovec4<float>(v2,z1,v1)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(z2,v1,v1)",ovec<float,4,AV<SWZ,float,2>,AV<OWN,float,1>,AV<OWN,float,1>>) \
 E("ovec4<float>(v2,s,z2)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z2,s,z2)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v2,s,z3)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z2,s,z3)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v2,s,z4)",ovec<float,4,AV<OWN,float,2>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(z2,s,z4)",ovec<float,4,AV<SWZ,float,2>,AS<float>,AV<SWZ,float,4>>) \
 E("ovec4<float>(v2,z2)",ovec<float,4,AV<OWN,float,2>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z2,z3)",ovec<float,4,AV<SWZ,float,2>,AV<SWZ,float,3>>) \
 E("ovec4<float>(v3,v1)",ovec<float,4,AV<OWN,float,3>,AV<OWN,float,1>>) \
 E("ovec4<float>(v3,z2)",ovec<float,4,AV<OWN,float,3>,AV<SWZ,float,2>>) \
 E("ovec4<float>(z3,z3)",ovec<float,4,AV<SWZ,float,3>,AV<SWZ,float,3>>) \
 E("ovec4<float>(z4)",ovec<float,4,AV<SWZ,float,4>>) \
 E("vec2<bool>(v1_int,v3_bool)",vec<bool,2,AV<OWN,int,1>,AV<OWN,bool,3>>) \
 E("vec2<float>(v3_int)",vec<float,2,AV<OWN,int,3>>) \
 E("vec3<int>(v1_double,z1_double,z2)",vec<int,3,AV<OWN,double,1>,AV<SWZ,double,1>,AV<SWZ,float,2>>) \
 E("vec3<bool>(z1_bool,v2_bool)",vec<bool,3,AV<SWZ,bool,1>,AV<OWN,bool,2>>) \
 E("vec3<float>(v2_ll,z1_double)",vec<float,3,AV<OWN,long long,2>,AV<SWZ,double,1>>) \
 E("vec3<unsigned>(z2_ll,v4_bool)",vec<unsigned,3,AV<SWZ,long long,2>,AV<OWN,bool,4>>) \
 E("vec4<float>(v1_double,s_ll,s_bool,z1_int)",vec<float,4,AV<OWN,double,1>,AS<long long>,AS<bool>,AV<SWZ,int,1>>) \
 E("vec4<bool>(s_unsigned,v1,z1,v4_ll)",vec<bool,4,AS<unsigned>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,long long,4>>) \
 E("vec4<long long>(v1_double,z1_double,z4_bool)",vec<long long,4,AV<OWN,double,1>,AV<SWZ,double,1>,AV<SWZ,bool,4>>) \
 E("vec4<double>(z1_bool,v2_bool,z3)",vec<double,4,AV<SWZ,bool,1>,AV<OWN,bool,2>,AV<SWZ,float,3>>) \
 E("vec4<bool>(s_bool,v4_int)",vec<bool,4,AS<bool>,AV<OWN,int,4>>) \
 E("vec4<double>(z2_ll,s_unsigned,v3_double)",vec<double,4,AV<SWZ,long long,2>,AS<unsigned>,AV<OWN,double,3>>) \
 E("vec4<int>(v2_bool,z3_int)",vec<int,4,AV<OWN,bool,2>,AV<SWZ,int,3>>) \
 E("vec4<float>(v3_ll,z2)",vec<float,4,AV<OWN,long long,3>,AV<SWZ,float,2>>) \
 E("vec4<float>(v4_bool)",vec<float,4,AV<OWN,bool,4>>) \
 E("ovec2<bool>(v1_int,v3_bool)",ovec<bool,2,AV<OWN,int,1>,AV<OWN,bool,3>>) \
 E("ovec2<float>(v3_int)",ovec<float,2,AV<OWN,int,3>>) \
 E("ovec3<int>(v1_double,z1_double,z2)",ovec<int,3,AV<OWN,double,1>,AV<SWZ,double,1>,AV<SWZ,float,2>>) \
 E("ovec3<bool>(z1_bool,v2_bool)",ovec<bool,3,AV<SWZ,bool,1>,AV<OWN,bool,2>>) \
 E("ovec3<float>(v2_ll,z1_double)",ovec<float,3,AV<OWN,long long,2>,AV<SWZ,double,1>>) \
 E("ovec3<unsigned>(z2_ll,v4_bool)",ovec<unsigned,3,AV<SWZ,long long,2>,AV<OWN,bool,4>>) \
 E("ovec4<float>(v1_double,s_ll,s_bool,z1_int)",ovec<float,4,AV<OWN,double,1>,AS<long long>,AS<bool>,AV<SWZ,int,1>>) \
 E("ovec4<bool>(s_unsigned,v1,z1,v4_ll)",ovec<bool,4,AS<unsigned>,AV<OWN,float,1>,AV<SWZ,float,1>,AV<OWN,long long,4>>) \
 E("ovec4<long long>(v1_double,z1_double,z4_bool)",ovec<long long,4,AV<OWN,double,1>,AV<SWZ,double,1>,AV<SWZ,bool,4>>) \
 E("ovec4<double>(z1_bool,v2_bool,z3)",ovec<double,4,AV<SWZ,bool,1>,AV<OWN,bool,2>,AV<SWZ,float,3>>) \
 E("ovec4<bool>(s_bool,v4_int)",ovec<bool,4,AS<bool>,AV<OWN,int,4>>) \
 E("ovec4<double>(z2_ll,s_unsigned,v3_double)",ovec<double,4,AV<SWZ,long long,2>,AS<unsigned>,AV<OWN,double,3>>) \
 E("ovec4<int>(v2_bool,z3_int)",ovec<int,4,AV<OWN,bool,2>,AV<SWZ,int,3>>) \
 E("ovec4<float>(v3_ll,z2)",ovec<float,4,AV<OWN,long long,3>,AV<SWZ,float,2>>) \
 E("ovec4<float>(v4_bool)",ovec<float,4,AV<OWN,bool,4>>)
