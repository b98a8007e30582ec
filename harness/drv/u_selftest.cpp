#include <mpi.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <string.h>
#include <stdio.h>
#include "verif.h"
static void chk(bool b, int line) { char s[80]; if (!b) { snprintf(s,80,"{\"e\":\"FAIL\",\"line\":%d}",line); verif_event(s); } }
#define C(x) chk(x, __LINE__)
static pthread_barrier_t bar; static sem_t sem; static int cnt;
static void* thr(void*) { pthread_barrier_wait(&bar); __atomic_fetch_add(&cnt, 1, __ATOMIC_SEQ_CST); sem_post(&sem); return 0; }
extern "C" void rank_main(int r, int n, const char*)
{
	int v = r + 1, o = -1;
	MPI_Reduce(&v, &o, 1, MPI_INT, MPI_SUM, 1, MPI_COMM_WORLD); C(r != 1 || o == n*(n+1)/2);
	MPI_Allreduce(&v, &o, 1, MPI_INT, MPI_PROD, MPI_COMM_WORLD); C(o == 6);
	MPI_Allreduce(&v, &o, 1, MPI_INT, MPI_BOR, MPI_COMM_WORLD); C(o == 3);
	MPI_Scan(&v, &o, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); C(o == (r+1)*(r+2)/2);
	o = 0; MPI_Exscan(&v, &o, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); C(o == r*(r+1)/2);
	int a[3]; MPI_Gather(&v, 1, MPI_INT, a, 1, MPI_INT, 0, MPI_COMM_WORLD); C(r || (a[0]==1&&a[2]==3));
	int cn[3]={1,2,3}, dp[3]={3,1,5}, w[3]={r,r,r}, q[10]; memset(q,0xff,sizeof q);
	MPI_Allgatherv(w, r+1, MPI_INT, q, cn, dp, MPI_INT, MPI_COMM_WORLD); C(q[3]==0&&q[1]==1&&q[2]==1&&q[5]==2&&q[7]==2&&q[0]==-1);
	int sc[3]={7,8,9}; MPI_Scatter(sc,1,MPI_INT,&o,1,MPI_INT,2,MPI_COMM_WORLD); C(o==7+r);
	int at[3]={10*r,10*r+1,10*r+2}, ar[3]; MPI_Alltoall(at,1,MPI_INT,ar,1,MPI_INT,MPI_COMM_WORLD); C(ar[0]==r&&ar[1]==10+r&&ar[2]==20+r);
	MPI_Status st; MPI_Sendrecv(&v,1,MPI_INT,(r+1)%n,5,&o,1,MPI_INT,(r+n-1)%n,5,MPI_COMM_WORLD,&st); C(o==(r+n-1)%n+1 && st.MPI_SOURCE==(r+n-1)%n);
	MPI_Request rq[2]; int x[2]; MPI_Irecv(&x[0],1,MPI_INT,(r+1)%n,1,MPI_COMM_WORLD,&rq[0]); MPI_Irecv(&x[1],1,MPI_INT,(r+2)%n,1,MPI_COMM_WORLD,&rq[1]);
	MPI_Send(&v,1,MPI_INT,(r+1)%n,1,MPI_COMM_WORLD); MPI_Ssend(&v,1,MPI_INT,(r+2)%n,1,MPI_COMM_WORLD);
	int i1,i2; MPI_Waitany(2,rq,&i1,&st); C(st.MPI_SOURCE==(r+1+i1)%n); int f=0; while(!f) MPI_Testany(2,rq,&i2,&f,&st); C(i1+i2==1 && x[0]==(r+1)%n+1 && x[1]==(r+2)%n+1);
	MPI_Irecv(&x[0],1,MPI_INT,(r+1)%n,9,MPI_COMM_WORLD,&rq[0]); MPI_Isend(&v,1,MPI_INT,(r+2)%n,9,MPI_COMM_WORLD,&rq[1]); f=0; while(!f) MPI_Testall(2,rq,&f,MPI_STATUSES_IGNORE); C(x[0]==(r+1)%n+1);
	MPI_Irecv(&x[0],1,MPI_INT,0,77,MPI_COMM_WORLD,&rq[0]); MPI_Cancel(&rq[0]); MPI_Wait(&rq[0],&st); MPI_Test_cancelled(&st,&f); C(f);
	if (r==0) { int z=42; MPI_Send(&z,1,MPI_INT,1,3,MPI_COMM_WORLD);} if (r==1) { MPI_Message m; MPI_Mprobe(MPI_ANY_SOURCE,3,MPI_COMM_WORLD,&m,&st); int c; MPI_Get_count(&st,MPI_INT,&c); C(c==1); MPI_Mrecv(&o,1,MPI_INT,&m,&st); C(o==42); }
	MPI_Comm d; MPI_Comm_dup(MPI_COMM_WORLD,&d); int k; MPI_Comm_compare(d,MPI_COMM_WORLD,&k); C(k==MPI_CONGRUENT); MPI_Comm_free(&d);
	MPI_Group g,h; MPI_Comm_group(MPI_COMM_WORLD,&g); int sel[2]={2,0}; MPI_Group_incl(g,2,sel,&h); MPI_Comm_create(MPI_COMM_WORLD,h,&d);
	if (r==1) C(d==MPI_COMM_NULL); else { int rr; MPI_Comm_rank(d,&rr); C(rr==(r==0)); MPI_Comm_free(&d); }
	MPI_Group_free(&g); MPI_Group_free(&h);
	MPI_Comm_split_type(MPI_COMM_WORLD,MPI_COMM_TYPE_SHARED,0,MPI_INFO_NULL,&d); MPI_Comm_size(d,&k); C(k==n); MPI_Comm_free(&d);
	int* base; MPI_Win win; MPI_Win_allocate(16,4,MPI_INFO_NULL,MPI_COMM_WORLD,&base,&win); for(int i=0;i<4;i++) base[i]=100*r+i; MPI_Barrier(MPI_COMM_WORLD);
	MPI_Win_lock(MPI_LOCK_SHARED,(r+1)%n,0,win); int y[2]={0,0}; MPI_Request gr; MPI_Rget(y,8,MPI_BYTE,(r+1)%n,1,2,MPI_INT,win,&gr); MPI_Wait(&gr,MPI_STATUS_IGNORE); C(y[0]==100*((r+1)%n)+1&&y[1]==100*((r+1)%n)+2);
	MPI_Datatype vt; MPI_Type_vector(2,1,2,MPI_INT,&vt); MPI_Type_commit(&vt); int zz[2]; MPI_Get(zz,2,MPI_INT,(r+1)%n,1,1,vt,win); MPI_Win_flush((r+1)%n,win); C(zz[0]==100*((r+1)%n)+1&&zz[1]==100*((r+1)%n)+3); MPI_Type_free(&vt);
	MPI_Win_unlock((r+1)%n,win); MPI_Barrier(MPI_COMM_WORLD);
	MPI_Win_lock(MPI_LOCK_SHARED,0,0,win); int one=1,old=-1; MPI_Get_accumulate(&one,1,MPI_INT,&old,1,MPI_INT,0,0,1,MPI_INT,MPI_SUM,win); MPI_Win_unlock(0,win); C(old>=0&&old<3); MPI_Barrier(MPI_COMM_WORLD); C(r||base[0]==3);
	MPI_Win_free(&win); C(verif_stat("live_mpimem")==0&&verif_stat("live_win")==0&&verif_stat("live_request")==0&&verif_stat("live_comm")==0&&verif_stat("live_group")==0&&verif_stat("live_type")==0);
	MPI_Barrier(MPI_COMM_WORLD);
	if (r==0) { pthread_barrier_init(&bar,0,3); sem_init(&sem,0,0); pthread_t t[2]; pthread_create(&t[0],0,thr,0); pthread_create(&t[1],0,thr,0); C(cnt==0); pthread_barrier_wait(&bar); sem_wait(&sem); sem_wait(&sem); C(cnt==2); pthread_join(t[0],0); pthread_join(t[1],0); pthread_barrier_destroy(&bar); sem_destroy(&sem); }
	verif_event("{\"e\":\"ok\"}");
}
