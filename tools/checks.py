"""What each check runs: harness recordings, trace validation, exhaustive small configurations."""
import os

def mc(x, module, cfg, cfg_thorough=None):
    """the specification itself has the property, exhaustively on small constants"""
    x.tlc(module, cfg)
    if cfg_thorough and x.tier == 'thorough': x.tlc(module, cfg_thorough, timeout=800)

# ---- backgammon ---------------------------------------------------------
def bg_positions(x, pid, want, quick, thorough):
    done, part, total = 0, 0, x.q(quick, thorough)
    while done < total:                       # in parts, TLC reads each file at once
        n = min(12000, total - done)
        f = x.path(f'pos{part}.nd')
        x.harness('bgpos', n=n, want=want, out=f, seed=x.seed * 1000 + part)
        if part == 0: x.sample(f, 2)
        x.tlc('TraceBg', 'Trace_' + pid, trace=f, traces=n)
        done += n; part += 1

def bg_games(x, pid, quick, thorough):
    n = x.q(quick, thorough)
    f = x.path('games.nd')
    s = x.harness('bggames', n=n, out=f)
    x.sample(f, 1, 800)
    x.tlc('TraceBg', 'Trace_' + pid, trace=f, traces=s['games'])

def c01(x):
    mc(x, 'MCBackgammon', 'MCBackgammon', 'MCBackgammonL'); bg_positions(x, 'C01', 'plays', 8000, 120000)
def c02(x):
    mc(x, 'MCBackgammon', 'MCBackgammon', 'MCBackgammonL'); bg_positions(x, 'C02', 'plays', 8000, 120000)
def c03(x):
    mc(x, 'MCBackgammon', 'MCBackgammon', 'MCBackgammonL'); bg_positions(x, 'C03', 'next', 4000, 60000); bg_games(x, 'C03', 150, 1500)
def c04(x):
    mc(x, 'MCBackgammon', 'MCBackgammon'); bg_positions(x, 'C04', 'next', 2000, 30000); bg_games(x, 'C04', 150, 1500)
    f = x.path('dice.nd'); x.harness('bgdice', n=72000, out=f); x.sample(f, 1); x.tlc('TraceBg', 'Trace_C04', trace=f, traces=6)
def c05(x):
    mc(x, 'MCBackgammon', 'MCBackgammon', 'MCBackgammonL'); bg_positions(x, 'C05', 'codes', 8000, 120000); ttt(x, 'C05')
def c06(x):
    mc(x, 'MCBackgammon', 'MCBackgammon'); bg_positions(x, 'C06', 'win', 8000, 100000); bg_games(x, 'C06', 150, 1500)
def c07(x):
    mc(x, 'MCBackgammon', 'MCBackgammon'); bg_positions(x, 'C07', 'input', 6000, 60000); ttt(x, 'C07')

# ---- tic-tac-toe: complete ----------------------------------------------
def ttt(x, pid):
    f = x.path('ttt.nd'); x.harness('ttt', out=f)
    x.samples.append([l for i, l in enumerate(open(f)) if i == 20000][0].strip()[:600])
    x.tlc('TraceTTT', 'TTT_' + pid, trace=f, traces=10956)
def c08(x): ttt(x, 'C08'); x.cov['exhaustive'] = True

# ---- search -------------------------------------------------------------
def searches(x, pid, modes, quick, thorough, games='script,script,script,ttt,ttt,script,bg', tag='', **kw):
    done, part, total = 0, 0, x.q(quick, thorough)
    hang = f'a search did not finish ({modes})' if pid == 'C09' else None
    while done < total:
        n = min(500, total - done)
        f = x.path(f's{part}-{modes}{tag}.nd')
        x.harness('search', modes=modes, games=games, n=n, out=f, seed=x.seed * 1000 + part, shards=6, hang_is=hang, crash_is=hang and 'a search ended the process', **kw)
        if part == 0: x.sample(f, 1)
        x.tlc('TraceSearch', 'Trace_' + pid, trace=f, traces=n)
        done += n; part += 1
def uses(x, pid, quick, thorough, **kw):
    done, part, total = 0, 0, x.q(quick, thorough)
    while done < total:
        n = min(100, total - done)
        f = x.path(f'u{part}.nd')
        x.harness('uses', n=n, out=f, seed=x.seed * 1000 + part, shards=6, **kw)
        if part == 0: x.sample(f, 1)
        x.tlc('TraceSearch', 'Trace_' + pid, trace=f, traces=sum(1 for _ in open(f)))
        done += n; part += 1
def c09(x): mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C09', 'rollout,single,batch,pick', 480, 6000)
def c10(x): mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C10', 'rollout,single,batch,pick', 360, 6000)
def c11(x): mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C11', 'rollout,single,batch,pick', 360, 6000); searches(x, 'C11', 'rollout,single,batch', 24, 500, games='script', long=1, final=1, tag='long'); uses(x, 'C11', 40, 600)
def c12(x):
    mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C12', 'rollout,rollout,single,batch,pick', 480, 6000); searches(x, 'C12', 'rollout,single,batch,single,batch', 45, 600, games='script,script,ttt', long=1, final=1, deep=1, tag='long'); uses(x, 'C12', 40, 600)
    f = x.path('playouts.nd'); s = x.harness('playouts', n=3000, graphs=x.q(8, 60), out=f); x.tlc('TraceSearch', 'Trace_C12', trace=f, traces=s['playouts'])
def c13(x): mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C13', 'rollout,single,batch,pick', 450, 6000); uses(x, 'C13', 40, 600)
def c14(x): mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C14', 'batch', 350, 5000); uses(x, 'C14', 25, 500, only='batch')
def c15(x): mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C15', 'rollout,single,batch,pick', 400, 8000); searches(x, 'C15', 'rollout,rollout,rollout,single,pick', 90, 1500, games='script', long=1, final=1, tag='long')
def c16(x):
    mc(x, 'MCSearch', 'MCSearch', 'MCSearchL'); searches(x, 'C16', 'single,batch,pick', 400, 6000); uses(x, 'C16', 30, 500)
    f = x.path('noise.nd'); s = x.harness('noise', n=x.q(200, 1500), out=f); x.tlc('TraceSearch', 'Trace_C16', trace=f, traces=s['roots'])
    f = x.path('usednoise.nd'); s = x.harness('usednoise', n=x.q(7, 56), out=f, shards=7); x.tlc('TraceSearch', 'Trace_C16', trace=f, traces=s['roots'])

# ---- self-play ----------------------------------------------------------
def selfplay(x, pid, quick, thorough):
    mc(x, 'MCSelfPlay', 'MCSelfPlay', 'MCSelfPlayL')
    done, part, total = 0, 0, x.q(quick, thorough)
    hang = 'self-play did not stop' if pid == 'C18' else None
    while done < total:
        n = min(400, total - done)
        f = x.path(f'sp{part}.nd')
        x.harness('selfplay', n=n, out=f, shards=6, seed=x.seed * 1000 + part, hang_is=hang)
        if part == 0: x.sample(f, 1)
        x.tlc('TraceSelfPlay', 'Trace_' + pid, trace=f, traces=n)
        done += n; part += 1
def c17(x): selfplay(x, 'C17', 640, 4000)
def c18(x): selfplay(x, 'C18', 640, 4000)

# ---- matches ------------------------------------------------------------
def matches(x, pid, quick, thorough):
    mc(x, 'MCMatch', 'MCMatch', 'MCMatchL')
    done, part, total = 0, 0, x.q(quick, thorough)
    while done < total:
        n = min(30, total - done)
        f = x.path(f'match{part}.nd')
        s = x.harness('matches', n=n, out=f, shards=3, seed=x.seed * 1000 + part, hang_is='a match did not end', crash_is='a match ended the process')
        if part == 0: x.sample(f, 1)
        x.tlc('TraceMatch', 'Trace_' + pid, trace=f, traces=n * 400)
        os.remove(f); done += n; part += 1
def c24(x): matches(x, 'C24', 30, 300)
def c25(x): matches(x, 'C25', 30, 300)

# ---- learning and files -------------------------------------------------
def learning(x, pid, cmd, quick, thorough):
    mc(x, 'MCLearning', 'MCLearning', 'MCLearningL')
    rec(x, pid, 'TraceLearn', cmd, quick, thorough, part_of=200)
def rec(x, pid, module, cmd, quick, thorough, part_of=200, cfg=None, shards=4, **kw):
    done, part, total = 0, 0, x.q(quick, thorough)
    while done < total:
        n = min(part_of, total - done)
        f = x.path(f'{cmd}{part}.nd')
        s = x.harness(cmd, n=n, out=f, seed=x.seed * 1000 + part, timeout=600, shards=shards, **kw)
        if part == 0: x.sample(f, 1)
        x.tlc(module, cfg or 'Trace_' + pid, trace=f, traces=sum(1 for _ in open(f)))
        done += n; part += 1
    return f
def c19(x): mc(x, 'MCFiles', 'MCFiles', 'MCFilesL'); rec(x, 'C19', 'TraceFiles', 'dataset', 200, 4000)
def c20(x): learning(x, 'C20', 'learn', 80, 1200)
def c21(x): mc(x, 'MCFiles', 'MCFiles', 'MCFilesL'); rec(x, 'C21', 'TraceFiles', 'clitrain', 8, 150, cli=x.build_cli())
def c22(x): mc(x, 'MCFiles', 'MCFiles', 'MCFilesL'); rec(x, 'C22', 'TraceFiles', 'models', 80, 1200)
def c23(x): learning(x, 'C23', 'best', 80, 800)
def c26(x):
    mc(x, 'MCFiles', 'MCFiles', 'MCFilesL')
    f = rec(x, 'C26', 'TraceFiles', 'savedgames', 64, 1600)
    rec(x, 'C26', 'TraceFiles', 'cliplay', 2, 12, cli=x.build_cli())
    x.known_or_raise('turns-never-recorded', lambda: x.tlc('TraceFiles', 'Trace_C26replay', trace=f))
def c27(x): mc(x, 'MCTrainPass', 'MCTrainPass', 'MCTrainPassL'); rec(x, 'C27', 'TraceFiles', 'trainpass', 150, 4000)
def c28(x): mc(x, 'MCNetwork', 'MCNetwork', 'MCNetworkL'); rec(x, 'C28', 'TraceNet', 'answers', 45, 1200, part_of=100)
def c29(x): mc(x, 'MCChances', 'MCChances', 'MCChancesL'); rec(x, 'C29', 'TraceChances', 'chances', 90, 2700, part_of=360, shards=5); rec(x, 'C29', 'TraceChances', 'outcomes', 6, 120, part_of=30, shards=6, cli=x.build_cli())
def c30(x): mc(x, 'MCCommands', 'MCCommands', 'MCCommandsL'); rec(x, 'C30', 'TraceCommands', 'sessions', 9, 150, part_of=30, shards=1, cli=x.build_cli(), **({'big': 1} if x.tier == 'thorough' else {}))
def c31(x): mc(x, 'MCBeginnings', 'MCBeginnings', 'MCBeginningsL'); rec(x, 'C31', 'TraceBeginnings', 'starts', 10, 120, part_of=30, shards=1)
def c32(x): mc(x, 'MCShown', 'MCShown', 'MCShownL'); rec(x, 'C32', 'TraceShown', 'shown', 1000, 20000, part_of=5000, cli=x.build_cli())
def c33(x): mc(x, 'MCAdam', 'MCAdam', 'MCAdamL'); rec(x, 'C33', 'TraceAdam', 'steps', 600, 10000, part_of=1000)

MC = 'model_checking'
RULES = 'spec/Backgammon.tla states the rules of backgammon as die-e plays them (doubles as two plays of two steps; either die when only one can be used)'
SAMPLED = 'positions and games are generated (12 position families, random walks), not enumerated; dice inside games are the code\'s own'
SEARCHED = 'searches are sampled: random scripted game graphs (blocked sides, double turns, finished positions), tic-tac-toe and backgammon positions, random networks, budgets 1-60, small games up to 600 (only the result: 1800); scores are compared in fixed point within 0.002'
PLAYED = 'self-play runs are sampled: scripted game graphs (several games side by side), one game at a time of tic-tac-toe and backgammon, random networks; the moves between two samples are inferred from what the samples contain'
MATCHED = 'matches are sampled (all agent pairings; scripted graphs, tic-tac-toe, backgammon endings); who decided a turn is told by what a search leaves behind and by networks with opposite preferences; a random agent is not judged beyond playing offered moves'
KEPT = 'histories of saving and loading are generated; files are written by one process without faults'
LEARNT = 'learning runs are sampled: small scripted games, 1-3 iterations, small batches; interruption of a run is out of scope'
CHECKS = {
    'C01': (c01, MC, [RULES, SAMPLED]), 'C02': (c02, MC, [RULES, SAMPLED]), 'C03': (c03, MC, [RULES, SAMPLED]),
    'C04': (c04, MC, [RULES, SAMPLED, 'that dice are even and know nothing of earlier ones is judged by counts over 72000 consecutive rolls, to six standard deviations']),
    **{i: (f, MC, [SEARCHED]) for i, f in (('C09', c09), ('C10', c10), ('C11', c11), ('C13', c13), ('C14', c14), ('C15', c15))},
    'C12': (c12, MC, [SEARCHED, 'values of network evaluations are compared with a separate forward pass within 1.5e-4; playouts are judged by possible results, exactly for forced lines, and by frequencies']),
    'C16': (c16, MC, [SEARCHED, 'priors are compared with a separate forward pass within 0.5%']),
    'C17': (c17, MC, [PLAYED]), 'C18': (c18, MC, [PLAYED]),
    'C19': (c19, MC, [KEPT]), 'C22': (c22, MC, [KEPT]), 'C26': (c26, MC, [KEPT, 'turns are not recorded by the code (known finding), so nothing can be replayed']),
    'C20': (c20, MC, [LEARNT]), 'C23': (c23, MC, [LEARNT, 'the winner of a match is fixed by networks with known preferences on scripted games, the share of wins is the specification\'s']),
    'C21': (c21, MC, ['trees of recorded runs are generated; the command is run with tic-tac-toe; which data sets were used is read from the averages the network keeps of one training batch']),
    'C27': (c27, MC, ['lists and batch sizes are generated (1-150 samples); what a sample was trained with is read from the weights, which relies on the optimiser being Adam']),
    'C28': (c28, MC, ['lives of networks are generated: 1-3 networks, 8-25 events, batches of 1-79 positions, answers agree within 3e-4, 24 entries of a backgammon policy are compared and the sum of all']),
    'C29': (c29, MC, ['situations are generated: tic-tac-toe positions without noise, 160-3000 choices in each; counts are judged within six standard deviations, so a distortion of a few percent of one move can stay unseen']),
    'C30': (c30, MC, ['sessions are generated: 7-11 commands in a fresh folder, nearly all with tic-tac-toe (full-size backgammon networks only in thorough runs), one fault at a time; what is inside data sets, games and models is judged by C19-C23 and C26', 'commands are not interrupted and run one at a time']),
    'C31': (c31, MC, ['games of real self-play runs (20-160 at a time) and matches; dice judged within six standard deviations over more than 1000 games each']),
    'C32': (c32, MC, ['positions are generated (families of C01, tall stacks); what is judged is the text, field by field']),
    'C33': (c33, MC, ['seen at the eight output biases of a small network (1-3 steps, 1-24 samples, one batch a step); the slopes of inner weights are not recomputed; targets are chosen so that slope and decay nearly cancel, which makes the sign tell their sizes']),
    'C24': (c24, MC, [MATCHED]), 'C25': (c25, MC, [MATCHED]),
    'C08': (c08, MC, ['positions are those reachable from the empty board by moves; the board is set through its public field']),
    'C05': (c05, MC, [SAMPLED]), 'C06': (c06, MC, [SAMPLED]), 'C07': (c07, MC, [SAMPLED]),
}
TV = 'TLA+ specification checked with TLC; traces of the real code validated against it'
TECH = {i: TV for i in CHECKS}
NOTE = {
 'C01': 'TLC: exhaustive on a small board; every offered play of thousands of generated full-size positions is judged by the specification\'s legality. Trusts the specification\'s rules and the generator\'s spread.',
 'C02': 'As C01, comparing the set of reachable positions with the specification\'s, both dice orders.',
 'C03': 'Every recorded play and pass, from generated positions and in whole games, leads to the position the specification prescribes; conservation at every step.',
 'C04': 'Turn state after every recorded play and pass equals the specification\'s; dice uniformity is statistical.',
 'C05': 'Range, uniqueness and round trip of every code of every offered play in generated positions, for both encoders.',
 'C06': 'Winner reported in generated, won and in-game positions equals the specification\'s.',
 'C07': 'Input planes of generated positions equal the specification\'s, cell by cell.',
 'C08': 'Complete: TLC walks through every position reachable from both starting sides and looks up what the implementation does there.',
 'C09': 'Every recorded search, in blocked, nearly finished and finished positions too, ends and answers as the specification demands.',
 'C10': 'The specification\'s tree invariant on the implementation\'s tree after every iteration.',
 'C11': 'Every recorded iteration adds one visit along one path; visit accounts balance in every state.',
 'C12': 'Every recorded iteration credits what the specification prescribes for its leaf; playout results must be possible ones within the turn limit.',
 'C13': 'Every recorded descent takes a best-scoring child by the specification\'s scores (fixed point, tolerance 0.002).',
 'C14': 'Every tree of every recorded batch makes exactly its own steps.',
 'C15': 'Every result row equals the visit shares of the recorded final tree; picks have visits.',
 'C16': 'Every recorded expansion has the network\'s shares as priors; noise at roots by bounds and by many single roots.',
 'C17': 'Every sample of every recorded run: its target belongs to its position and consecutive samples of a game are linked by a move with weight.',
 'C18': 'Every recorded run ends; games hand in all their positions, labelled by the result reachable by their last move or 0 at the limit.',
 'C24': 'TLC walks through all games of every recorded match, tallying; totals, win rate and named winners must agree with the final positions.',
 'C25': 'Every turn of every game of every recorded match: offered move or forced pass, decided by the agent of the side to move, nothing after the end or beyond 400 turns.',
 'C19': 'Every recorded history of saving and loading data sets (one sample, equal samples, many samples, several games) gives back what the specification\'s files hold, bit for bit.',
 'C20': 'Every recorded learning run leaves exactly the data sets and models the specification prescribes; samples are traced by game and ply.',
 'C21': 'The real die-e train command, run on generated trees of recorded runs; the data sets used are read from the trained network.',
 'C22': 'Every recorded history of saving, spoiling, loading and beginning from models follows the specification\'s files; outputs are compared bit for bit, training steps must start from the loaded weights.',
 'C23': 'Every recorded challenge of a stored best model ends as the specification says for the match result.',
 'C26': 'Every recorded history of saving and loading games, and the real play command, follow the specification\'s files. Known finding: turns are never recorded.',
 'C27': 'Step, target and outcome of every sample of every recorded training pass are read from the trained weights and judged by the specification.',
 'C31': 'All games of the recorded runs and matches begin in the standard position; who begins, identities and dice are counted.',
 'C32': 'Every printed position and every shown saved game is, field by field, the text the specification prints for it; the specification shows that the text tells the position.',
 'C33': 'Every recorded step moves every output bias as the specification computes from policies, values, targets, outcomes, weights and decay.',
 'C30': 'Every command of every recorded session of the real program is refused or does its work exactly as the specification says; files and folders are compared before and after.',
 'C29': 'The counts of every recorded situation lie within six standard deviations of the chances the specification computes; moves without visits are never chosen.',
 'C28': 'Every answer in every recorded life of several networks agrees with what the network answered before, and nothing but training and loading changes what a network keeps.',
}
