exec(open('/verif/seedtool/meta_mk.py').read())
P('C18','Correlative scan matching returns the best pose of its search window',
 'For every map, scan and search window: a precomputed coarse grid holds at each cell the maximum of the (8 bit) map values over the window that extends from it, so a coarse candidate\'s score is an upper bound for every pose below it; the coarsest candidates cover every pose of the window; tightening the window only drops poses at which no scan point hits the map; branch and bound returns a pose of the window with its own full resolution score, and no pose of the window has a higher one. A match is reported exactly if that score is above the minimum score (outputs are untouched otherwise), as the initial pose moved by the winning offset. The real-time matcher considers every pose of its window and returns the one with the highest score.',
 ['inputs','histories'],'every map content and size, every scan, window, depth of the grid stack and order of candidates',
 'The tests match one small random cloud on one map per case and check only the pose found; an upper bound that is a little too low, a window border that is never visited or a wrong pruning test loses the optimum only for particular maps and poses.',
 ['cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc','cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc','cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc'],
 [('upper bounds','cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc PrecomputationGrid2D, SlidingWindowMaximum'),('branch and bound','cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc BranchAndBound/ScoreCandidates/GenerateLowestResolutionCandidates'),('search window','cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc SearchParameters::ShrinkToFit')],
 'Sliding window, precomputation grid, candidate generation, scoring, window tightening, branch and bound (induction over the depth via the contract of the recursive call) and Match proved; std::sort trusted; scoring of the real-time matcher and window size from options by the bounded native run.')
