import subprocess,sys,re
B="""	auto out_list = new_block_list_apply_to_all_blocks(
	    [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other);
"""
F='/repo/sources/btensor.cpp'
cases=[]
def R(n,new,old=B,file=F): cases.append((n,0,file,old,new))
def M(n,old,new,file=F): cases.append((n,1,file,old,new))
R('R1',"""	block_list_t out_list;
	out_list.reserve(blocks_list.size());
	for (block_list_t::const_iterator it = blocks_list.begin(); it != blocks_list.end(); ++it)
	{
		auto &[ind, ten] = *it;
		out_list.emplace(out_list.end(), ind, ten.mul(other));
	}
""")
R('R2',"""	block_list_t out_list = blocks_list;
	for (auto &b : out_list)
		b.second = torch::mul(b.second, other);
""")
R('R3',"""	block_list_t out_list = blocks_list;
	for (size_t i = 0; i < out_list.size(); ++i)
		(out_list.begin() + i)->second = (out_list.begin()+i)->second * other;
""")
R('R3b',"""	block_list_t out_list;
	block_list_t::const_iterator it(blocks_list.begin());
	const auto n = blocks_list.size();
	size_t i = n;
	while (i-- > 0)
	{
		out_list.emplace(it->first, it->second * other);
		++it;
	}
""")
R('R4',"""	block_list_t out_list;
	std::transform(blocks_list.begin(), blocks_list.end(), std::inserter(out_list, out_list.end()), [&](const auto& x){ return std::make_pair(x.first, x.second.mul(other));});
""")
R('R5',"""	block_list_t out_list;
	for (auto it = blocks_list.begin(), last = blocks_list.end(); it != last; ++it)
		out_list.insert(out_list.end(), std::make_pair(it->first, it->second.mul(other)));
""")
R('R6',"""	btensor cpy(*this);
	cpy.force_inplace_apply_to_all_blocks([](torch::Tensor &t, auto &&o) { t.mul_(o); }, other);
	block_list_t out_list = std::move(cpy.blocks_list);
""")
M('M1',"return tensor.mul(other_val); }, other);","return tensor.div(other_val); }, other);")
M('M2',"return tensor.greater(other_val)","return tensor.ge(other_val)")
M('M3',"""	const auto &[ind, ten] = *it;
		if (ten.numel()""","")
import os
os.makedirs('/tmp/mutw/.cache',exist_ok=True)
only=sys.argv[1:]
for n,want,f,old,new in cases:
    if only and n not in only: continue
    s=open(f).read()
    if old not in s: print(n,'no match'); continue
    subprocess.run('rm -rf /tmp/mutw/include /tmp/mutw/sources; cp -a /repo/include /repo/sources /tmp/mutw/; ln -sfn /repo/extern /tmp/mutw/extern; for e in /verif/.cache/extract-*; do ln -sf $e /tmp/mutw/.cache/; done',shell=True)
    open(f.replace('/repo','/tmp/mutw'),'w').write(s.replace(old,new))
    r=subprocess.run(['python3','/verif/checks/check.py','A06'],env=dict(os.environ,QTT_REPO='/tmp/mutw',QTT_CACHE='/tmp/mutw/.cache',QTT_EVID='/tmp/mutw'),capture_output=True,text=True)
    print(n,'want',want,'got',r.returncode,'' if r.returncode==want else r.stdout[-600:]+r.stderr[-300:])
