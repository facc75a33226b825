"""known_findings.jsonl: genuine defects of /repo found by the checks (all repaired so far)."""
import json, subprocess
M = {  # first words of the commit subject -> (property, what failed)
 'do not append':('C25','building a dynamic appended the default trackers to the caller\'s extra_tracks list'),
 'reset keeps':('C30','reset() replaced the configured tracked quantities and save interval by the defaults'),
 'use the result of nan':('C11','post_process_default(copy_nan_to_num=True) discarded the result, NaN survived'),
 'history entries are':('C12','history[x][0], update_norm and drift entries aliased the live arrays'),
 'one update norm':('C14','update_diff had shape (M,N) for multi-dimensional positions, update-tolerance criterion raised'),
 'Heaviside corrections':('C05','heavi_side(_reg) raised or mixed runs under batching, terminated runs and multi-dimensional positions; every run was charged M evaluations'),
 'without constraints':('C19','MultiConstraint(None).solve_Id_hessian_squared_sum returned 0'),
 'CBOMemory compares':('C15','CBOMemory raised under batching or terminated runs; infinite positions turned memory into NaN'),
 'CBOMemory reports':('C07','best_particle of CBOMemory was the current position, not the memory position of best_energy'),
 'PSO compares':('C15','PSO raised under batching or terminated runs'),
 'PSO counts':('C09','PSO charged terminated runs and wrong counts for multi-dimensional positions'),
 'PSO reports':('C07','best_particle of PSO was x_old of the argmin, not the memory position of best_energy'),
 'PSO velocities':('C15','PSO drifted away from consensus and memory and scaled the inertia with dt'),
 'HyperSurfaceCBO moves':('C06','HyperSurfaceCBO raised or moved terminated runs'),
 'DriftConstrainedCBO moves':('C20','DriftConstrainedCBO raised or moved terminated runs'),
 'RegCombinationCBO moves':('C20','RegCombinationCBO raised or moved terminated runs'),
 'MirrorCBO leaves':('C16','MirrorCBO recomputed the positions of terminated and unselected particles'),
 'independent noise':('C06','independent noise of DriftConstrainedCBO raised or compared runs with the consensus of other runs'),
 'best particle of Drift':('C07','best_particle of DriftConstrainedCBO was the position before the independent noise'),
 'covariance noise':('C29','covariance noise raised under terminated runs or batching and used stale energies'),
 'PolarCBO computes':('C02','PolarCBO raised with a batched consensus and unbatched update'),
 'covariance of PolarCBO':('C29','PolarCBO with covariance noise raised for M>1'),
 'energy stagnation':('C14','energy-stagnation raised for M>1 and indexed the consensus by run under terminated runs'),
 'regularised objectives':('C28','regularize_objective raised when evaluated on the active runs only'),
 'weighted mean':('C28','weighted mean regulariser was NaN for large alpha*energy'),
 'conjugate gradient of the log':('C17','LogBarrierBox.grad_conj(0) was NaN'),
 'square projection':('C17','ProjectionSquare ignored the radius on the selected coordinate and mapped 0 to 0'),
 'default hyperplane projection':('C17','default ProjectionHyperplane missed the hyperplane for d>1'),
 'gradient of the entropy':('C17','Entropy.grad_conj(grad(x)) was x+1.2e-7'),
 'conjugate gradient of the simplex':('C17','NegativeLogEntropySimplex.grad_conj overflowed to NaN'),
 'objectives keep':('C22','nd_sinus, p_4th_order, accelerated_sinus, Multimodal dropped axes of length one'),
 'objectives accept':('C22','array parameters raised (truth value of an array)'),
 'minimiser of the sixth':('C22','Bukin6 declared (0,0) as its minimiser'),
 'minimisers of the scaled':('C22','declared minimisers of Himmelblau/Holder_table ignored factor and shift'),
 'documented formula':('C22','documented formula/minimum of Rastrigin, McCormick, drop_wave did not match'),
 'tracking the best':('C09','track_best_consensus charged all active runs and indexed the consensus by run'),
 'optimize of CBS':('C06','CBS.optimize returned None'),
 'bisection stops':('C13','bisection_solve moved a run once more after its residual was within the tolerance (possibly out of it)'),
 'default hyperplane keeps':('C17','default ProjectionHyperplane returned (1,N,d) for points of shape (N,d)'),
 'distance criterion':('C24','dist_to_min_success squeezed axes of length one'),
 'consensus stagnation for':('C23','consensus_stagnation raised for particles with more than two axes (matrix norm of a higher-rank array)'),
 'Taz kernel':('C10','Taz_kernel divided the distances by their maximum over all runs (runs influenced each other); NaN when all points coincide'),
}
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','716bfdb..HEAD'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h, s = l.split(' ',1)
    if not s.startswith('fix: '): continue
    k=[k for k in M if s[5:].startswith(k)]
    assert len(k)==1,(s,k)
    p,w=M[k[0]]
    out.append(dict(status='fixed',property=p,commit=h,what=w,text='fixed: property=%s %s %s'%(p,h,w)))
open('/verif/known_findings.jsonl','w').write(''.join(json.dumps(o)+'\n' for o in out))
print(len(out))
