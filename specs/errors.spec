package metadata

// ---- C26: error families ----

func (ErrRepository).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRepository))
func (ErrUnsignedMetadata).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRepository)) || target == conv(error, zero(ErrUnsignedMetadata))
func (ErrBadVersionNumber).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRepository)) || target == conv(error, zero(ErrBadVersionNumber))
func (ErrEqualVersionNumber).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRepository)) || target == conv(error, zero(ErrBadVersionNumber)) || target == conv(error, zero(ErrEqualVersionNumber))
func (ErrExpiredMetadata).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRepository)) || target == conv(error, zero(ErrExpiredMetadata))
func (ErrLengthOrHashMismatch).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRepository)) || target == conv(error, zero(ErrLengthOrHashMismatch))
func (ErrDownload).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrDownload))
func (ErrDownloadLengthMismatch).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrDownload)) || target == conv(error, zero(ErrDownloadLengthMismatch))
func (ErrDownloadHTTP).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrDownload)) || target == conv(error, zero(ErrDownloadHTTP))
func (ErrValue).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrValue))
func (ErrType).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrType))
func (ErrRuntime).Is(e, target) (r)
  ensures [C26] r <==> target == conv(error, zero(ErrRuntime))
