package main

import "github.com/gogo/protobuf/proto"

// The messages of doc.proto once more, without methods of their own: gogo's
// table-driven codec encodes and decodes them from their tags alone.

type mHeartReq struct {
	Msg                  int32    `protobuf:"varint,1,opt,name=msg,proto3" json:"msg,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mHeartReq) Reset()         { *m = mHeartReq{} }
func (m *mHeartReq) String() string { return proto.CompactTextString(m) }
func (*mHeartReq) ProtoMessage()    {}

type mDocReq struct {
	DocId                string        `protobuf:"bytes,1,opt,name=doc_id,json=docId,proto3" json:"doc_id,omitempty"`
	Content              string        `protobuf:"bytes,2,opt,name=content,proto3" json:"content,omitempty"`
	Attri                []byte        `protobuf:"bytes,3,opt,name=attri,proto3" json:"attri,omitempty"`
	Tokens               []*mTokenData `protobuf:"bytes,4,rep,name=tokens" json:"tokens,omitempty"`
	Labels               []string      `protobuf:"bytes,5,rep,name=labels" json:"labels,omitempty"`
	Fields               []byte        `protobuf:"bytes,6,opt,name=fields,proto3" json:"fields,omitempty"`
	ForceUpdate          bool          `protobuf:"varint,7,opt,name=forceUpdate,proto3" json:"forceUpdate,omitempty"`
	XXX_NoUnkeyedLiteral struct{}      `json:"-"`
	XXX_unrecognized     []byte        `json:"-"`
	XXX_sizecache        int32         `json:"-"`
}

func (m *mDocReq) Reset()         { *m = mDocReq{} }
func (m *mDocReq) String() string { return proto.CompactTextString(m) }
func (*mDocReq) ProtoMessage()    {}

type mTokenData struct {
	Text                 string   `protobuf:"bytes,1,opt,name=text,proto3" json:"text,omitempty"`
	Locations            []int32  `protobuf:"varint,2,rep,packed,name=locations" json:"locations,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mTokenData) Reset()         { *m = mTokenData{} }
func (m *mTokenData) String() string { return proto.CompactTextString(m) }
func (*mTokenData) ProtoMessage()    {}

type mDeleteReq struct {
	DocId                string   `protobuf:"bytes,1,opt,name=doc_id,json=docId,proto3" json:"doc_id,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mDeleteReq) Reset()         { *m = mDeleteReq{} }
func (m *mDeleteReq) String() string { return proto.CompactTextString(m) }
func (*mDeleteReq) ProtoMessage()    {}

type mReply struct {
	Result               int32    `protobuf:"varint,1,opt,name=result,proto3" json:"result,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mReply) Reset()         { *m = mReply{} }
func (m *mReply) String() string { return proto.CompactTextString(m) }
func (*mReply) ProtoMessage()    {}

type mSearchReq struct {
	Id                   string          `protobuf:"bytes,1,opt,name=id,proto3" json:"id,omitempty"`
	Query                string          `protobuf:"bytes,2,opt,name=query,proto3" json:"query,omitempty"`
	OutputOffset         int32           `protobuf:"varint,3,opt,name=outputOffset,proto3" json:"outputOffset,omitempty"`
	MaxOutputs           int32           `protobuf:"varint,4,opt,name=maxOutputs,proto3" json:"maxOutputs,omitempty"`
	Time                 string          `protobuf:"bytes,5,opt,name=time,proto3" json:"time,omitempty"`
	DocIds               map[string]bool `protobuf:"bytes,6,rep,name=docIds" json:"docIds,omitempty" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	Logic                *mLogic         `protobuf:"bytes,7,opt,name=logic" json:"logic,omitempty"`
	XXX_NoUnkeyedLiteral struct{}        `json:"-"`
	XXX_unrecognized     []byte          `json:"-"`
	XXX_sizecache        int32           `json:"-"`
}

func (m *mSearchReq) Reset()         { *m = mSearchReq{} }
func (m *mSearchReq) String() string { return proto.CompactTextString(m) }
func (*mSearchReq) ProtoMessage()    {}

type mSearchReply struct {
	Code                 int32    `protobuf:"varint,1,opt,name=code,proto3" json:"code,omitempty"`
	Len                  int32    `protobuf:"varint,2,opt,name=len,proto3" json:"len,omitempty"`
	Timestamp            int64    `protobuf:"varint,3,opt,name=timestamp,proto3" json:"timestamp,omitempty"`
	Docs                 []*mText `protobuf:"bytes,4,rep,name=docs" json:"docs,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mSearchReply) Reset()         { *m = mSearchReply{} }
func (m *mSearchReply) String() string { return proto.CompactTextString(m) }
func (*mSearchReply) ProtoMessage()    {}

type mText struct {
	Id                   string   `protobuf:"bytes,1,opt,name=id,proto3" json:"id,omitempty"`
	Content              string   `protobuf:"bytes,2,opt,name=content,proto3" json:"content,omitempty"`
	Attri                *mAttri  `protobuf:"bytes,3,opt,name=attri" json:"attri,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mText) Reset()         { *m = mText{} }
func (m *mText) String() string { return proto.CompactTextString(m) }
func (*mText) ProtoMessage()    {}

type mAttri struct {
	Title                string   `protobuf:"bytes,1,opt,name=title,proto3" json:"title,omitempty"`
	Author               string   `protobuf:"bytes,2,opt,name=author,proto3" json:"author,omitempty"`
	Time                 string   `protobuf:"bytes,3,opt,name=time,proto3" json:"time,omitempty"`
	Ts                   int64    `protobuf:"varint,4,opt,name=ts,proto3" json:"ts,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mAttri) Reset()         { *m = mAttri{} }
func (m *mAttri) String() string { return proto.CompactTextString(m) }
func (*mAttri) ProtoMessage()    {}

type mLogic struct {
	Must                 bool     `protobuf:"varint,1,opt,name=must,proto3" json:"must,omitempty"`
	Should               bool     `protobuf:"varint,2,opt,name=should,proto3" json:"should,omitempty"`
	NotIn                bool     `protobuf:"varint,3,opt,name=notIn,proto3" json:"notIn,omitempty"`
	Expr                 *mExpr   `protobuf:"bytes,4,opt,name=expr" json:"expr,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mLogic) Reset()         { *m = mLogic{} }
func (m *mLogic) String() string { return proto.CompactTextString(m) }
func (*mLogic) ProtoMessage()    {}

type mExpr struct {
	Must                 []string `protobuf:"bytes,1,rep,name=must" json:"must,omitempty"`
	Should               []string `protobuf:"bytes,2,rep,name=should" json:"should,omitempty"`
	NotIn                []string `protobuf:"bytes,3,rep,name=notIn" json:"notIn,omitempty"`
	XXX_NoUnkeyedLiteral struct{} `json:"-"`
	XXX_unrecognized     []byte   `json:"-"`
	XXX_sizecache        int32    `json:"-"`
}

func (m *mExpr) Reset()         { *m = mExpr{} }
func (m *mExpr) String() string { return proto.CompactTextString(m) }
func (*mExpr) ProtoMessage()    {}
