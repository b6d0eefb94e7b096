#include "SimCpu.h"
#include "PhysMemory.h"
#include "diff.h"
#include <chrono>
long long sim_time=0; SimCpu cpu;
int main(int argc,char**argv){
  pmem_init();
  cpu.init(); cpu.back.load_image(argv[1]); if(argc>3) kit_env::observe=[](const kit_env::Event&e){printf("@%lld ev%d m%d a=%08x id%u\n",sim_time,e.kind,e.master,e.addr,e.id);};
  long lim=argc>2?atol(argv[2]):100000;
  auto t0=std::chrono::steady_clock::now();
  for(;sim_time<lim;sim_time++){cpu.cycle(); if(cpu.ctx.exit_reason!=ExitReason::NONE)break;}
  double s=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  printf("cycles %lld exit %d commits %llu  %.0f cyc/s\n",sim_time,(int)cpu.ctx.exit_reason,(unsigned long long)cpu.ctx.perf.commit_num, sim_time/s);
}
