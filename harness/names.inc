const char* op_names[OP_COUNT] = { "nop",
  "push_back(const&)","push_back(&&)","push_back()","push_front(const&)","push_front(&&)","push_front()",
  "pop_back","pop_front","push_back(alias)","push_front(alias)","push_back*n","push_front*n",
  "insert(const&)","insert(&&)","insert(pos)","insert(n)","insert(range)","insert(int,int)",
  "rinsert(const&)","rinsert(&&)","rinsert(pos)","rinsert(n)","rinsert(range)","rinsert(int,int)",
  "erase","erase(range)","rerase","rerase(range)","erase_begin","erase_end","clear",
  "set_capacity","rset_capacity","resize(item)","resize","rresize(item)","rresize","set_capacity(over)","rset_capacity(over)","resize(over)",
  "write_view","at(out of range)","linearize","rotate",
  "assign(n)","assign(cap,n)","assign(range)","assign(cap,range)","assign(int,int)","assign(cap,int,int)",
  "copy_assign","self_assign","move_assign","swap","swap_free",
  "ctor()","ctor(cap)","ctor(n,item)","ctor(cap,n,item)","ctor(range)","ctor(cap,range)","ctor(int,int)","ctor(cap,int,int)",
  "ctor(copy)","ctor(move)","ctor(over)","ctor(ctrl,item)",
  "iterator_laws","algorithms","compare",
  "it_get","it_copy","it_assign","it_drop","it_conv","it_end" };
const char* tag_names[T_COUNT] = { "NONE","CONTENT","RET","VIEW","ITER","LIFE","ALLOC","EXC","STRONG","NOTHROW","MOVE",
  "STAB","COST","MEM","CMP","DBGVALID","DBGFILL","ASSERT","RANGE","CAP","CRASH","HANG","EXPOSE","NOALLOC" };
