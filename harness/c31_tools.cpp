// Calibration tools: the programs themselves, against models of everything around them (parameters, data sets on disk,
// target finders, windows) and of the calibrations, which have properties of their own.
// TOOL 1 camera on wrist, 2 static camera, 3 multi camera, 4 multi camera in steps, 5 PnP, 6 multi camera PnP,
// 7 intrinsics, 8 intrinsic validation, 9 noise.  ANALYSE: any found images, given poses, and what follows the calibration
#include "vp.h"
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <Eigen/Geometry>
#include <rct_ros_tools/data_set.h>
#define main tool_main
#if TOOL==1
#include "camera_on_wrist_extrinsic.cpp"
#elif TOOL==2
#include "static_camera_extrinsic.cpp"
#elif TOOL==3
#include "multi_static_camera_extrinsic.cpp"
#elif TOOL==4
#include "multi_static_camera_multi_step_extrinsic.cpp"
#elif TOOL==5
#include "solve_pnp.cpp"
#elif TOOL==6
#include "solve_multi_camera_pnp.cpp"
#elif TOOL==7
#include "intrinsic_calibration.cpp"
#elif TOOL==8
#include "camera_intrinsic_calibration_validation.cpp"
#else
#include "noise_qualification_2d.cpp"
#endif
#undef main
#if TOOL==3||TOOL==4||TOOL==6
#define CAMS 2
#else
#define CAMS 1
#endif
typedef Eigen::Isometry3d Iso; typedef Correspondence2D3D::Set CS;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
// everything there is: images 1.. of every camera, their poses, features and outcomes
static const int N=IMGS; static ExtrinsicDataSet data[CAMS]; static std::vector<unsigned char> bytes(64); static int outcome[64]; static CS features[64]; static double homography[64][2],threshold; static CameraIntrinsics intr_[CAMS]; static std::map<std::string,Iso> pose_; static int kind=1; static std::string gone;
static int ident(int c,int i){ return c*N+i+1; } static bool found(int c,int i){ return outcome[ident(c,i)]==0; }
static int optimised=0,pnps=0; static std::vector<int> shown;
static bool image(const cv::Mat& m,int id){ return m.rows==1&&m.cols==1&&m.data[0]==id; }
struct T_ : rct_image_tools::Target { CS createCorrespondences(const rct_image_tools::TargetFeatures& f) const override { CS s; for(auto& kv:f) for(size_t k=0;k<kv.second.size();k++){ s.push_back(features[kv.first].at(k)); s.back().in_image=kv.second[k]; } return s; } };
static T_ target_; static bool configured=false;
struct P_ : rct_ros_tools::TargetFinderPlugin { void init(const YAML::Node& c) override { configured=c["type"].as<std::string>()=="some finder"&&c["rows"].as<int>()==7; } const rct_image_tools::Target& target() const override { return target_; }
  cv::Mat drawTargetFeatures(const cv::Mat& m,const rct_image_tools::TargetFeatures&) const override { return m.clone(); }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override { vp_check("finder-configured",configured); int id=m.data[0]; if(outcome[id]==0||outcome[id]==3){ rct_image_tools::TargetFeatures f; for(auto& x:features[id]) f[id].push_back(x.in_image); return f; } if(kind==1) throw std::runtime_error("nothing here"); return {}; } };
// one image's correspondences
static void setup(int c,int i){ int id=ident(c,i); bytes[id]=id; data[c].images.push_back(cv::Mat(1,1,CV_8U,&bytes[id])); CS s; for(int k=0;k<1+i%2;k++){ Correspondence2D3D x; std::string n=S(S("f",id)+"_",k);
#ifdef ANALYSE
    x.in_image<<10*id+k,20*id-k; x.in_target<<0.01*id,0.02*k,id;
#else
    x.in_image<<vp_real((n+"u").c_str()),vp_real((n+"v").c_str()); x.in_target<<vp_real((n+"x").c_str()),vp_real((n+"y").c_str()),id;   // the last coordinate tells the images apart
#endif
    s.push_back(x); } features[id]=s; }
// a pose with its own rotation, and any translation unless the analysis follows
static Iso somepose(const std::string& n,int r){ Iso t=Iso::Identity(); t.linear()=(Eigen::AngleAxisd(0.1+0.3*r,Eigen::Vector3d::UnitX())*Eigen::AngleAxisd(0.2-0.1*r,Eigen::Vector3d::UnitZ())).toRotationMatrix();
#ifdef ANALYSE
  t.translation()<<0.1*r,0.3-0.05*r,1+0.1*r;
#else
  for(int k=0;k<3;k++) t(k,3)=vp_real(S(n,k).c_str());
#endif
  return t; }
static void same(const char* n,const CS& a,const CS& b){ vp_check(n,a.size()==b.size()); if(a.size()!=b.size()) return; for(size_t k=0;k<a.size();k++){ for(int j=0;j<2;j++) vp_check_eq(n,a[k].in_image(j),b[k].in_image(j)); for(int j=0;j<3;j++) vp_check_eq(n,a[k].in_target(j),b[k].in_target(j)); } }
static void same(const char* n,const Iso& a,const Iso& b){ for(int i=0;i<3;i++) for(int j=0;j<4;j++){ vp_check_le(n,a(i,j),b(i,j)+1e-9); vp_check_le(n,b(i,j),a(i,j)+1e-9); } }
static void same(const char* n,const CameraIntrinsics& a,const CameraIntrinsics& b){ for(int i=0;i<4;i++) vp_check_eq(n,a.values[i],b.values[i]); }
static const Iso& P(const std::string& k){ return pose_.at(k); }
static void done(){ 
#ifndef ANALYSE
  throw std::runtime_error("stopped here");
#endif
}
// used images of a single camera: found, with an acceptable homography error
static std::vector<int> used; 
namespace rct_ros_tools {
boost::optional<ExtrinsicDataSet> parseFromFile(const std::string& p){ for(int c=0;c<CAMS;c++) if(p==S("/data/",c)&&gone!=p) return data[c]; return {}; }
cv::Mat readImageOpenCV(const std::string& p){ for(int i=0;i<N;i++) if(p==S("/data/0/image",i)) return data[0].images[i].clone(); vp_check("listed-image-read",false); throw std::runtime_error("no such image"); }
static bool has(const std::string& k){ return k!=gone; }
bool loadIntrinsics(const ros::NodeHandle&,const std::string& k,CameraIntrinsics& o){ if(!has(k)) return false; for(int c=0;c<CAMS;c++) if(k==(CAMS==1?std::string("intrinsics"):S("camera_",c)+"/intrinsics")){ o=intr_[c]; return true; } return false; }
CameraIntrinsics loadIntrinsics(const ros::NodeHandle& n,const std::string& k){ CameraIntrinsics o; if(!loadIntrinsics(n,k,o)) throw ros::InvalidParameterException(k); return o; }
bool loadPose(const ros::NodeHandle&,const std::string& k,Iso& o){ if(!has(k)||!pose_.count(k)) return false; o=pose_[k]; return true; }
bool loadPose(const std::string&,Iso&){ return false; }
Iso loadPose(const ros::NodeHandle& n,const std::string& k){ Iso o; if(!loadPose(n,k,o)) throw ros::InvalidParameterException(k); return o; }
}
namespace cv {
void namedWindow(const String&,int){} void destroyWindow(const String&){} void destroyAllWindows(){} int waitKey(int){ return 0; } void imshow(const String&,InputArray m){ if(optimised) shown.push_back(m.getMat().data[0]); }
void circle(InputOutputArray,Point,int,const Scalar&,int,int,int){}
#if TOOL==5
Mat imread(const String& p,int){ if(p==gone) return Mat(); vp_check("image-read",p=="/data/0/image0"); return data[0].images[0].clone(); }
bool solvePnP(InputArray o,InputArray p,InputArray k,InputArray,OutputArray r,OutputArray t,bool,int){ auto& a=*(std::vector<Point3d>*)o.getObj(); auto& b=*(std::vector<Point2d>*)p.getObj(); CS s; vp_check("as-many-points",a.size()==b.size()); if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++){ Correspondence2D3D c; c.in_image<<b[i].x,b[i].y; c.in_target<<a[i].x,a[i].y,a[i].z; s.push_back(c); } same("reference-solver-correspondences",s,features[1]);
  Mat m=k.getMat(); CameraIntrinsics q; q.fx()=m.at<double>(0,0); q.fy()=m.at<double>(1,1); q.cx()=m.at<double>(0,2); q.cy()=m.at<double>(1,2); same("reference-solver-intrinsics",q,intr_[0]); vp_check("reference-solver-camera-matrix",m.at<double>(0,1)==0&&m.at<double>(1,0)==0&&m.at<double>(2,0)==0&&m.at<double>(2,1)==0&&m.at<double>(2,2)==1); Mat R=r.getMat(),T=t.getMat(); for(int i=0;i<3;i++){ R.at<double>(i,0)=0.1*(i+1); T.at<double>(i,0)=i+1; } return true; }
#endif
#if TOOL==7
double calibrateCamera(InputArrayOfArrays o,InputArrayOfArrays p,Size z,InputOutputArray k,InputOutputArray d,OutputArrayOfArrays,OutputArrayOfArrays,int,TermCriteria){ auto& a=*(std::vector<std::vector<Vec3f>>*)o.getObj(); auto& b=*(std::vector<std::vector<Vec2f>>*)p.getObj(); vp_check("reference-calibration-images",a.size()==used.size()&&b.size()==used.size()); if(a.size()!=used.size()||b.size()!=used.size()) throw std::runtime_error("?"); vp_check("reference-calibration-size",z==data[0].images[0].size());
  for(size_t i=0;i<a.size();i++){ CS s; if(a[i].size()!=b[i].size()){ vp_check("as-many-points",false); continue; } for(size_t j=0;j<a[i].size();j++){ Correspondence2D3D c; c.in_image<<b[i][j][0],b[i][j][1]; c.in_target<<a[i][j][0],a[i][j][1],a[i][j][2]; s.push_back(c); } same("reference-calibration-correspondences",s,features[used[i]+1]); }
  Mat m=k.getMat(); CameraIntrinsics q; q.fx()=m.at<double>(0,0); q.fy()=m.at<double>(1,1); q.cx()=m.at<double>(0,2); q.cy()=m.at<double>(1,2); same("reference-calibration-guess",q,intr_[0]); Mat(Mat::zeros(1,5,CV_64F)).copyTo(d); return 0; }
#endif
}
#if TOOL==9
namespace YAML { Node LoadFile(const std::string& f){ vp_check("data-file",f=="/list"); std::string t="[]"; if(N){ t=""; for(int i=0;i<N;i++) t+=S("- image: image",i)+"\n"; } return Load(t); } }
#endif
static void observation(const Observation2D3D& o,int i,bool camera_moves){ same("own-correspondences",o.correspondence_set,features[i+1]); same("own-camera-pose",o.to_camera_mount,camera_moves?data[0].tool_poses[i]:Iso::Identity()); same("own-target-pose",o.to_target_mount,camera_moves?Iso::Identity():data[0].tool_poses[i]); }
static Iso shifted(const Iso& t,int k){ Iso r=t; for(int i=0;i<3;i++) r(i,3)=t(i,3)+0.01*(i+1)*(k+1); return r; }
static std::vector<double> distances; static Iso cam_[2],tgt_;
namespace rct_optimizations {
#if TOOL<=2
Eigen::VectorXd calculateHomographyError(const CS& s,const CorrespondenceSampler&){ int id=s.at(0).in_target(2); Eigen::VectorXd e(2); e<<homography[id][0],homography[id][1]; return e; }
RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n,const std::size_t m,const unsigned s):n_correspondences(n),n_samples(m),seed(s){} std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const { return {}; }
ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& p){ optimised++; const bool on_wrist=TOOL==1; same("intrinsics",p.intr,intr_[0]); same("camera-guess",p.camera_mount_to_camera_guess,P(on_wrist?"wrist_to_camera_guess":"base_to_camera_guess")); same("target-guess",p.target_mount_to_target_guess,P(on_wrist?"base_to_target_guess":"wrist_to_target_guess"));
  vp_check("every-used-image-once",p.observations.size()==used.size()); if(p.observations.size()==used.size()) for(size_t k=0;k<used.size();k++) observation(p.observations[k],used[k],on_wrist); done(); ExtrinsicHandEyeResult r; r.converged=true; r.initial_cost_per_obs=4; r.final_cost_per_obs=0.25; r.camera_mount_to_camera=cam_[0]; r.target_mount_to_target=tgt_; return r; }
Eigen::ArrayXd compute3DProjectionError(const Observation2D3D::Set& o,const CameraIntrinsics& k,const Iso& c,const Iso& t){ vp_check("every-used-image-projected",o.size()==used.size()); same("projection-camera",c,cam_[0]); same("projection-target",t,tgt_); same("projection-intrinsics",k,intr_[0]); Eigen::ArrayXd e(4); e<<0.5,0.125,0.25,0.625; return e; }
PnPResult optimize(const PnPProblem& p){ size_t k=pnps++; PnPResult r; r.camera_to_target=p.camera_to_target_guess; vp_check("only-used-images-compared",k<used.size()); if(k>=used.size()) return r; int i=used[k]; same("comparison-correspondences",p.correspondences,features[i+1]); same("comparison-intrinsics",p.intr,intr_[0]); const Iso& w=data[0].tool_poses[i]; same("comparison-starts-at-the-calibrated-pose",p.camera_to_target_guess,TOOL==1?cam_[0].inverse()*w.inverse()*tgt_:cam_[0].inverse()*w*tgt_); r.camera_to_target=shifted(p.camera_to_target_guess,i); distances.push_back(0.01*(i+1)*std::sqrt(14.0)); return r; }
#elif TOOL==3||TOOL==4||TOOL==6
#if TOOL==3
static std::vector<int> analysed(){ std::vector<int> a; for(int i=0;i<N;i++) if(found(0,i)&&found(1,i)) a.push_back(i); return a; }
ExtrinsicMultiStaticCameraMovingTargetResult optimize(const ExtrinsicMultiStaticCameraMovingTargetProblem& p){ optimised++; vp_check("one-entry-per-camera",p.intr.size()==CAMS&&p.base_to_camera_guess.size()==CAMS&&p.wrist_poses.size()==CAMS&&p.image_observations.size()==CAMS); if(p.intr.size()!=CAMS||p.base_to_camera_guess.size()!=CAMS||p.wrist_poses.size()!=CAMS||p.image_observations.size()!=CAMS) throw std::runtime_error("?");
  same("target-guess",p.wrist_to_target_guess,P("wrist_to_target_guess")); for(int c=0;c<CAMS;c++){ same("own-intrinsics",p.intr[c],intr_[c]); same("own-camera-guess",p.base_to_camera_guess[c],P(S("camera_",c)+"/base_to_camera_guess")); std::vector<int> u; for(int i=0;i<N;i++) if(found(c,i)) u.push_back(i); vp_check("every-found-image-once",p.wrist_poses[c].size()==u.size()&&p.image_observations[c].size()==u.size()); if(p.wrist_poses[c].size()!=u.size()||p.image_observations[c].size()!=u.size()) continue; for(size_t k=0;k<u.size();k++){ same("own-pose",p.wrist_poses[c][k],data[c].tool_poses[u[k]]); same("own-correspondences",p.image_observations[c][k],features[ident(c,u[k])]); } }
  done(); ExtrinsicMultiStaticCameraMovingTargetResult r; r.converged=true; r.initial_cost_per_obs=4; r.final_cost_per_obs=0.25; r.wrist_to_target=tgt_; r.base_to_camera={cam_[0],cam_[1]}; return r; }
#else
static std::vector<int> analysed(){ std::vector<int> a; for(int i=0;i<N;i++) if(found(0,i)&&found(1,i)) a.push_back(i); return a; }
#endif
#if TOOL==4
static bool fix_first=false; static Iso first_[2];
ExtrinsicMultiStaticCameraOnlyResult optimize(const ExtrinsicMultiStaticCameraOnlyProblem& p){ optimised++; auto u=analysed(); bool sizes=p.intr.size()==CAMS&&p.base_to_camera_guess.size()==CAMS&&p.image_observations.size()==CAMS&&p.base_to_target_guess.size()==u.size(); for(auto& q:p.image_observations) if(q.size()!=u.size()) sizes=false; vp_check("images-seen-by-all-cameras",sizes); if(!sizes) throw std::runtime_error("?"); vp_check("first-camera-fixed-as-asked",p.fix_first_camera==fix_first);
  for(int c=0;c<CAMS;c++){ same("own-intrinsics",p.intr[c],intr_[c]); same("own-camera-guess",p.base_to_camera_guess[c],P(S("camera_",c)+"/base_to_camera_guess")); for(size_t k=0;k<u.size();k++) same("own-correspondences",p.image_observations[c][k],features[ident(c,u[k])]); } for(size_t k=0;k<u.size();k++) same("own-target-guess",p.base_to_target_guess[k],data[0].tool_poses[u[k]]*P("wrist_to_target_guess"));
  ExtrinsicMultiStaticCameraOnlyResult r; r.converged=true; r.initial_cost_per_obs=4; r.final_cost_per_obs=0.25; r.base_to_camera={first_[0],first_[1]}; return r; }
ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult optimize(const ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem& p){ vp_check("cameras-first",optimised==1); optimised++; auto u=analysed(); bool sizes=p.intr.size()==CAMS&&p.base_to_camera_guess.size()==CAMS&&p.image_observations.size()==CAMS&&p.wrist_poses.size()==u.size(); for(auto& q:p.image_observations) if(q.size()!=u.size()) sizes=false; vp_check("images-seen-by-all-cameras",sizes); if(!sizes) throw std::runtime_error("?"); same("target-guess",p.wrist_to_target_guess,P("wrist_to_target_guess"));
  for(int c=0;c<CAMS;c++){ same("own-intrinsics",p.intr[c],intr_[c]); same("cameras-of-the-first-step",p.base_to_camera_guess[c],first_[c]); for(size_t k=0;k<u.size();k++) same("own-correspondences",p.image_observations[c][k],features[ident(c,u[k])]); } for(size_t k=0;k<u.size();k++) same("own-pose",p.wrist_poses[k],data[0].tool_poses[u[k]]);
  done(); ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult r; r.converged=true; r.initial_cost_per_obs=4; r.final_cost_per_obs=0.25; r.wrist_to_target=tgt_; r.base_to_camera={cam_[0],cam_[1]}; return r; }
#endif
MultiCameraPnPResult optimize(const MultiCameraPnPProblem& p){ size_t k=pnps++; if(TOOL==6) optimised++; MultiCameraPnPResult r; r.converged=true; r.initial_cost_per_obs=1; r.final_cost_per_obs=0.25; r.base_to_target=p.base_to_target_guess; auto u=analysed(); vp_check("only-images-seen-by-all-cameras",k<u.size()); if(k>=u.size()) return r; int i=u[k]; bool sizes=p.intr.size()==CAMS&&p.base_to_camera.size()==CAMS&&p.image_observations.size()==CAMS; vp_check("one-entry-per-camera",sizes); if(!sizes) return r;
  same("pose-of-the-target",p.base_to_target_guess,TOOL==6?data[0].tool_poses[i]:data[0].tool_poses[i]*tgt_); for(int c=0;c<CAMS;c++){ same("own-intrinsics",p.intr[c],intr_[c]); same("own-camera-pose",p.base_to_camera[c],TOOL==6?P(S("camera_",c)+"/base_to_camera"):cam_[c]); same("own-correspondences",p.image_observations[c],features[ident(c,i)]); } if(TOOL==6) done(); r.base_to_target=shifted(p.base_to_target_guess,i); return r; }
#elif TOOL==5
PnPResult optimize(const PnPProblem& p){ optimised++; same("intrinsics",p.intr,intr_[0]); same("own-correspondences",p.correspondences,features[1]); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=p.camera_to_target_guess(i,k)*p.camera_to_target_guess(j,k); vp_check_le("rigid-guess",std::abs(s-(i==j)),1e-9); } vp_check("guess-in-front-of-the-camera",p.camera_to_target_guess(2,3)>0); PnPResult r; r.converged=true; r.initial_cost_per_obs=1; r.final_cost_per_obs=0.25; r.camera_to_target=tgt_; return r; }
#elif TOOL==7
IntrinsicEstimationResult optimize(const IntrinsicEstimationProblem& p){ optimised++; same("intrinsics-guess",p.intrinsics_guess,intr_[0]); vp_check("every-used-image-once",p.image_observations.size()==used.size()); if(p.image_observations.size()==used.size()) for(size_t k=0;k<used.size();k++) same("own-correspondences",p.image_observations[k],features[used[k]+1]); IntrinsicEstimationResult r; r.converged=true; r.initial_cost_per_obs=1; r.final_cost_per_obs=0.25; r.intrinsics=intr_[0]; r.distortions={1,2,3,4,5}; return r; }
#elif TOOL==8
static double err[4];
IntrinsicCalibrationAccuracyResult measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& o,const CameraIntrinsics& k,const Iso& c,const Iso& t,const Iso& g,const double th){ optimised++; same("intrinsics",k,intr_[0]); same("camera-pose",c,P("wrist_to_camera_guess")); same("target-pose",t,P("base_to_target_guess")); same("bases-coincide",g,Iso::Identity()); vp_check("threshold-of-a-pixel",th==1.0); vp_check("every-used-image-once",o.size()==used.size()); if(o.size()==used.size()) for(size_t i=0;i<used.size();i++) observation(o[i],used[i],true); IntrinsicCalibrationAccuracyResult r; r.pos_error={err[0],err[1]}; r.ang_error={err[2],err[3]}; return r; }
#else
PnPNoiseStat qualifyNoise2D(const std::vector<PnPProblem>& p){ optimised++; vp_check("every-used-image-once",p.size()==used.size()); if(p.size()==used.size()) for(size_t k=0;k<used.size();k++){ same("intrinsics",p[k].intr,intr_[0]); same("pose-guess",p[k].camera_to_target_guess,P("camera_to_target_guess")); same("own-correspondences",p[k].correspondences,features[used[k]+1]); } PnPNoiseStat r; r.p_stat.mean.setZero(); r.p_stat.stdev.setZero(); r.q_stat.mean.setIdentity(); r.q_stat.stdev=0; return r; }
#endif
}
static void* plugin(const std::string& p,const std::string& b,const std::string& t){ vp_check("finder-type",p=="rct_ros_tools"&&b=="rct_ros_tools::TargetFinderPlugin"&&t=="some finder"); return static_cast<rct_ros_tools::TargetFinderPlugin*>(new P_()); }
static double number(const std::string& t,const std::string& a){ size_t i=t.find(a); if(i==std::string::npos) return NAN; return std::strtod(t.c_str()+i+a.size(),nullptr); }
#if TOOL==4
static bool none(){ return rct_optimizations::analysed().empty(); }
#else
static bool none(){ return false; }
#endif
static void near(const char* n,double a,double b){ vp_check(n,std::abs(a-b)<=1e-4*std::abs(b)+1e-4); }
void vp_main(){ vp_create=plugin; std::vector<std::string> keys;
  XmlRpc::XmlRpcValue f; f["type"]=XmlRpc::XmlRpcValue("some finder"); f["rows"]=XmlRpc::XmlRpcValue(7); auto& sv=ros::vp_server; sv["target_finder"]=f; keys.push_back("target_finder");
#if TOOL==5
  sv["image_path"]=XmlRpc::XmlRpcValue("/data/0/image0"); keys={"target_finder","image_path","intrinsics"};
#elif CAMS==1
  sv["data_path"]=XmlRpc::XmlRpcValue("/data/0"); keys.push_back("data_path"); keys.push_back("intrinsics");
#if TOOL!=9
  keys.push_back("/data/0");
#endif
#else
  sv["num_of_cameras"]=XmlRpc::XmlRpcValue(CAMS); keys.push_back("num_of_cameras"); for(int c=0;c<CAMS;c++){ std::string b=S("camera_",c)+"/"; sv[b+"data_path"]=XmlRpc::XmlRpcValue(S("/data/",c)); keys.push_back(b+"data_path"); keys.push_back(b+"intrinsics"); keys.push_back(S("/data/",c)); }
#endif
  std::vector<std::string> poses;
#if TOOL==1||TOOL==8
  poses={"base_to_target_guess","wrist_to_camera_guess"};
#elif TOOL==2
  poses={"base_to_camera_guess","wrist_to_target_guess"};
#elif TOOL==3||TOOL==4
  poses={"wrist_to_target_guess","camera_0/base_to_camera_guess","camera_1/base_to_camera_guess"};
#elif TOOL==6
  poses={"camera_0/base_to_camera","camera_1/base_to_camera"};
#elif TOOL==9
  poses={"camera_to_target_guess"}; sv["data_file"]=XmlRpc::XmlRpcValue("/list"); keys.push_back("data_file");
#endif
  for(size_t i=0;i<poses.size();i++){ pose_[poses[i]]=somepose("guess"+std::to_string(i)+"_",10+i); keys.push_back(poses[i]); }
#if TOOL==4
  fix_first=vp_concrete(vp_int("fix-first",0,1)); sv["fix_first_camera"]=XmlRpc::XmlRpcValue((bool)fix_first); keys.push_back("fix_first_camera"); first_[0]=somepose("first0_",5); first_[1]=somepose("first1_",6);
#endif
  for(int c=0;c<CAMS;c++){ for(int i=0;i<4;i++){
#ifdef ANALYSE
    intr_[c].values[i]=500+10*i+100*c;
#else
    intr_[c].values[i]=vp_real(S(S("k",c)+"_",i).c_str());
#endif
   } for(int i=0;i<N;i++){ setup(c,i); data[c].tool_poses.push_back(somepose(S(S("tool",c)+"_",i)+"_",c*N+i)); } }
#ifdef ANALYSE
  cam_[0]=somepose("",20); cam_[1]=somepose("",21); tgt_=somepose("",22);
#elif TOOL==5
  tgt_=Iso::Identity();
#endif
#if TOOL<=2
  threshold=vp_real("threshold"); sv["homography_threshold"]=XmlRpc::XmlRpcValue(threshold); keys.push_back("homography_threshold");
#endif
#if TOOL==8
  for(int i=0;i<4;i++) err[i]=vp_real(S("err",i).c_str());
#endif
#ifdef LOST
  // one parameter or data set is not there: the tool fails and calibrates nothing
  int g=vp_concrete(vp_int("gone",0,30)); vp_assume(g<(int)keys.size()); gone=keys[g]; sv.erase(gone);
#else
  kind=vp_concrete(vp_int("kind",1,2)); for(int c=0;c<CAMS;c++) for(int i=0;i<N;i++){ int id=ident(c,i); outcome[id]=vp_concrete(vp_int(S("missing",id).c_str(),0,1));
#if TOOL<=2
    for(int k=0;k<2;k++) homography[id][k]=vp_real(S(S("homography",id)+"_",k).c_str()); if(!outcome[id]) if((homography[id][0]+homography[id][1])*0.5>threshold) outcome[id]=3;
#endif
  }
#endif
  if(CAMS==1) for(int i=0;i<N;i++) if(found(0,i)) used.push_back(i);
  std::ostringstream text; std::streambuf* keep=std::cout.rdbuf(text.rdbuf()); char name[]="tool"; char* args[]={name,nullptr}; int rc=-2; try { rc=tool_main(1,args); } catch(...){ vp_check("tool-handles-its-exceptions",false); } std::cout.rdbuf(keep);
#ifdef LOST
  vp_reach("lost"); vp_check("missing-input-fails",rc!=0); vp_check("missing-input-calibrates-nothing",optimised==0); return;
#endif
  vp_reach("run");
#if TOOL==5
  vp_check("no-target-fails",(rc!=0)==!found(0,0)); vp_check("solved-once",optimised==(found(0,0)?1:0)); return;
#elif TOOL!=6
  if(CAMS==1&&used.empty()) return; if(CAMS==2) for(int c=0;c<CAMS;c++){ int k=0; for(int i=0;i<N;i++) k+=found(c,i); if(!k) return; } if(TOOL==4&&none()) return;   // nothing to calibrate with
  vp_check("calibrated",optimised==(TOOL==4?2:1));
#endif
#if TOOL==8
  double p=err[0]+2*err[1],a=err[2]+2*err[3]; bool ok=true; if(p>1e-3) ok=false; if(a>0.05*M_PI/180) ok=false; vp_check("calibration-judged-by-the-tolerances",(vp_ros_log.find("is valid")!=std::string::npos)==ok); vp_check("calibration-judged-by-the-tolerances",(vp_ros_log.find("not within tolerance")!=std::string::npos)==!ok);
#endif
#if TOOL>=7
  vp_check("successful",rc==0); return;
#elif !defined(ANALYSE)
  vp_check("failure-reported",rc!=0); return;
#else
  vp_check("successful",rc==0);
#if TOOL<=2
  vp_check("every-used-image-compared",pnps==(int)used.size()); vp_check("shown-on-its-own-image",shown.size()==used.size()); for(size_t k=0;k<used.size()&&k<shown.size();k++) vp_check("shown-on-its-own-image",shown[k]==used[k]+1);
  std::string t=text.str(); std::string l="Mean +/- Std. Dev. (m): "; near("projection-mean",number(t,l),0.375); size_t at=t.find(l); near("projection-deviation",at==std::string::npos?NAN:number(t.substr(at+l.size()),"+/- "),0.228218); near("projection-minimum",number(t,"Min (m): "),0.125); near("projection-maximum",number(t,"Max (m): "),0.625);
  double m=0,v=0; for(double d:distances) m+=d/distances.size(); for(double d:distances) v+=(d-m)*(d-m)/distances.size(); near("comparison-mean",number(t,"Mean (m): "),m); near("comparison-deviation",number(t,"\tStd. Dev. (m): "),std::sqrt(v)); near("comparison-angle",number(t,"Mean (deg): "),0);
#else
  auto u=rct_optimizations::analysed(); vp_check("every-shared-image-compared",pnps==(int)u.size()); vp_check("shown-on-its-own-image",shown.size()==2*u.size()); for(size_t k=0;k<u.size()&&2*k+1<shown.size();k++) for(int j=0;j<2;j++) vp_check("shown-on-its-own-image",shown[2*k+j]==u[k]+1);
#endif
#endif
}
