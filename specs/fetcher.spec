package fetcher

// ---- C17: the default fetcher ----

func (*DefaultFetcher).DownloadFile(d, urlPath, maxLength, timeout) (data, err)
  modifies net, reqURLs, answered, status, answer, announced
  ensures [C17] net <= old(net) + 1 && (net == old(net) + 1 ==> reqURLs == upd(old(reqURLs), old(net), urlPath))
  ensures [C17] err == nil ==> net == old(net) + 1 && answered && status == 200
  ensures [C17] err == nil ==> bytes(data) == answer && len(data) <= maxLength
  ensures [C17] err == nil ==> readFails == old(readFails) && (announced == "" || strconv.ParseInt#1(announced, 10, 0) == nil)
  ensures [C17] net == old(net) + 1 && answered && status != 200 ==> (err is metadata.ErrDownloadHTTP) && err.(metadata.ErrDownloadHTTP).StatusCode == status
  ensures [C17] err != nil ==> len(data) == 0
  ensures [C17] maxLength >= 0 ==> bytesRead <= old(bytesRead) + maxLength + 1
  ensures [C17] net == old(net) + 1 && answered && status == 200 && readFails == old(readFails) && len(answer) <= maxLength && (announced == "" || strconv.ParseInt#1(announced, 10, 0) == nil && strconv.ParseInt(announced, 10, 0) <= maxLength) ==> err == nil
